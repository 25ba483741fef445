// @props K01
// @src src/ecs/ecs.cpp src/ecs/entity.cpp src/ecs/entity_archetype.cpp src/ecs/system.cpp src/ecs/time.cpp src/app/power.cpp src/task/async_thread.cpp src/task/thread_pool.cpp
// @src src/task/timer.cpp src/task/timer_object.cpp src/task/async_task.cpp src/task/event.cpp src/task/thread.cpp src/task/waitable_event.cpp src/task/time_slice.cpp
// @src src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp src/core/uuid.cpp src/io/openssl.cpp src/app/module.cpp src/posix/app/posix_module.cpp
// @link -lboost_chrono -lboost_filesystem -lcrypto -ldl
// @flags -DNEOLIB_HAS_TSC_CLOCK=0
// The entity component system: components, entities, handles, shared components, systems and their time, against maps.
#include <map>
#include <set>
#include <string>
#include <optional>
#include <tuple>
#include <array>
#include <algorithm>
#include <cmath>
#include <neolib/task/async_task.hpp>
#include <neolib/ecs/ecs.hpp>
#include <neolib/ecs/entity.hpp>
#include <neolib/ecs/entity_archetype.hpp>
#include <neolib/ecs/entity_info.hpp>
#include <neolib/ecs/entity_life_span.hpp>
#include <neolib/ecs/time.hpp>
#include "mc.hpp"
#include <memory>
using namespace neolib; using mc::choose; using mc::elem; typedef std::vector<std::string> L;
namespace e = neolib::ecs; typedef e::entity_id id_t_;
static bool sServices = (services::allocate_service_provider(), true);
static std::int64_t sNow = 0; static bool sVirtual = false;
extern "C" int clock_gettime(clockid_t, timespec*) noexcept;
namespace std::chrono::inline _V2 { steady_clock::time_point steady_clock::now() noexcept { if (sVirtual) return time_point{ duration{ sNow } }; timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point{ duration{ std::int64_t(t.tv_sec) * 1000000000 + t.tv_nsec } }; } }
struct test_task : async_task { using async_task::do_work; };
static test_task& the_task() { static test_task* t = [] { return new test_task; }(); return *t; }
namespace neolib { template<> i_async_task& services::start_service<i_async_task>() { return the_task(); } }
static uuid make(int n) { return uuid{ std::uint32_t(n), 1, 2, 3, { 4, 5, 6, 7, 8, 9 } }; }
template <int N> struct meta_of : e::i_component_data::meta { static const uuid& id() { static uuid const u = make(N); return u; } static const i_string& name() { static string const s{ "c" + std::to_string(N) }; return s; } static uint32_t field_count() { return 1; } static e::component_data_field_type field_type(uint32_t) { return e::component_data_field_type::Int32; } static const i_string& field_name(uint32_t) { static string const s{ "v" }; return s; } };
struct pos { elem v; struct meta : meta_of<1> {}; friend bool operator<(pos const& a, pos const& b) { return a.v < b.v; } };
static std::multiset<int> sFreed;
struct hnd { elem v; struct meta : meta_of<2> { static constexpr bool has_handles = true; static void free_handles(hnd& h, e::i_ecs&) { sFreed.insert(h.v.get()); } }; };
struct plain { int v; struct meta : meta_of<3> {}; };
static int sUpdates = 0;
struct sha { elem v; struct meta : meta_of<4> { static constexpr bool has_updater = true; static void update(sha&, e::i_ecs&, e::entity_id) { ++sUpdates; } }; };
struct world { std::unique_ptr<e::ecs> p; world(e::ecs_flags f = e::ecs_flags::NoThreads) { the_task(); sNow = 1000000000000; sVirtual = true; sFreed.clear(); p = std::make_unique<e::ecs>(f | e::ecs_flags::NoThreads); } ~world() { p.reset(); the_task().do_work(); sVirtual = false; } e::ecs* operator->() { return p.get(); } e::ecs& operator*() { return *p; } e::i_ecs& i() { return *p; } void tick() { sNow += 1000000; the_task().do_work(); } };
// --- one component -----------------------------------------------------------------------------------
template <typename C> struct value_traits { static int get(typename C::value_type const& x) { if constexpr (requires { x.has_value(); }) return x ? x->v.get() : -1; else return x.v.get(); } };
template <typename C> static void check_component(C& c, std::map<id_t_, int> const& m)
{
    typedef value_traits<C> V; auto const& k = const_cast<C const&>(c); MC_CHECK(k.component_data().size() == m.size() && k.entities().size() == m.size(), "size", k.component_data().size(), " expected ", m.size()); std::set<id_t_> seen;
    for (std::size_t i = 0; i < m.size(); ++i) { auto const id = k.entities()[i]; auto const x = m.find(id); MC_CHECK(x != m.end() && seen.insert(id).second, "entities", id); MC_CHECK(V::get(k[i]) == x->second && k.entity(k[i]) == id && k.reverse_index(id) == i, "record", id); }
    for (id_t_ id = 0; id < 6; ++id) { auto const x = m.find(id); MC_CHECK(k.has_entity_record(id) == (x != m.end()), "has_entity_record", id); try { auto const v = V::get(k.entity_record(id)); MC_CHECK(x != m.end() && v == x->second, "entity_record", id); } catch (typename C::entity_record_not_found const&) { MC_CHECK(x == m.end(), "entity_record", id); } }
}
template <typename Data, bool Raw> static void component_states()
{
    typedef e::component<Data> C; typedef typename C::value_type value; constexpr bool optional = requires (value x) { x.has_value(); }; world w; C c{ *w }; std::map<id_t_, int> m, snap; bool have = false; std::unique_ptr<typename C::scoped_snapshot> held; auto of = [](int v) { value x; if constexpr (optional) { if (v >= 0) { x.emplace(); x->v = elem(v); } } else x.v = elem(v); return x; };
    for (;;)
    {
        check_component(c, m); MC_CHECK(c.have_snapshot() == have, "have_snapshot", ""); if (have) check_component(c.snapshot().data(), snap);
        std::uint64_t h = 0; for (auto i : c.entities()) { mc::hash_combine(h, i); mc::hash_combine(h, m[i]); } mc::hash_combine(h, c.reverse_indices().size()); mc::hash_combine(h, have); mc::hash_combine(h, held != nullptr); if (have) for (auto i : c.snapshot().data().entities()) { mc::hash_combine(h, i); mc::hash_combine(h, snap[i]); } mc::checkpoint(h);
        auto const op = choose(8); static id_t_ const ids[] = { 1, 2, 5 }; auto const id = ids[op <= 3 ? choose(3) : 0]; int const v = optional ? int(choose(3)) - 1 : int(choose(2)); sFreed.clear();
        switch (op)
        {
        case 0: { auto const x = of(v); MC_CHECK(value_traits<C>::get(c.populate(id, x)) == v, "populate", id); m[id] = v; break; }
        case 1: if constexpr (Raw) { auto x = of(v < 0 ? 0 : v); void const* p; if constexpr (optional) p = v < 0 ? nullptr : (void const*)&*x; else p = &x; try { auto const r = c.populate(id, p, sizeof(typename C::data_type)); MC_CHECK(value_traits<C>::get(*static_cast<value const*>(r)) == v, "populate", id); } catch (typename C::invalid_data const&) { mc::fail("populate", "invalid data"); } for (auto n : { sizeof(typename C::data_type) - 1, sizeof(typename C::data_type) + 1 }) try { c.populate(id, p, n); mc::fail("populate", "data of any size is accepted"); } catch (typename C::invalid_data const&) {} if (!optional) try { c.populate(id, nullptr, sizeof(typename C::data_type)); mc::fail("populate", "no data is accepted"); } catch (typename C::invalid_data const&) {} } else c.populate(id, of(v)); m[id] = v; break;
        case 2: { if (v > 0) throw mc::prune{}; bool thrown = false; int old = m.count(id) ? m[id] : 0; try { c.destroy_entity_record(id); } catch (typename C::entity_record_not_found const&) { thrown = true; } MC_CHECK(thrown == !m.count(id), "destroy", id); if constexpr (std::is_same_v<Data, hnd>) MC_CHECK(sFreed == (thrown ? std::multiset<int>{} : std::multiset<int>{ old }), "handles", "freed ", sFreed.size(), " times"); m.erase(id); if (!thrown) snap.erase(id); break; }
        case 3: { auto const there = m.count(id) != 0; auto& x = c.entity_record(id, true); MC_CHECK(value_traits<C>::get(x) == (there ? m[id] : optional ? -1 : 0), "create", id); x = of(v); m[id] = v; break; }
        case 4: { auto less = [](value const& a, value const& b) { return value_traits<C>::get(a) < value_traits<C>::get(b); }; if (v <= 0) c.sort(less); else c.sort([&](value const& a, value const& b) { return less(b, a); }); for (std::size_t i = 1; i < m.size(); ++i) MC_CHECK(v <= 0 ? !less(c[i], c[i - 1]) : !less(c[i - 1], c[i]), "sorted", i); break; }
        case 5: if (v > 0) throw mc::prune{}; c.take_snapshot(); if (!held) { have = true; snap = m; } break;
        case 6: if (v > 0 || !have) throw mc::prune{}; if (held) held.reset(); else held = std::make_unique<typename C::scoped_snapshot>(c.snapshot()); break;
        case 7: if (m.empty()) throw mc::prune{}; { std::map<id_t_, int> n; c.apply([&](C& o, value& x) { n[o.entity(x)] = value_traits<C>::get(x); }); MC_CHECK(n == m, "apply", ""); auto const first = c.entities()[0]; c.populate(4, c[0]); m[4] = m[first]; c.destroy_entity_record(4); m.erase(4); snap.erase(4); break; }
        }
    }
}
MC_STATESPACE("component/plain", 8, 12) { component_states<pos, true>(); }
MC_STATESPACE("component/optional", 6, 8) { component_states<std::optional<pos>, true>(); }
MC_STATESPACE("component/handles", 6, 8) { component_states<hnd, false>(); }
// --- the sort components are sorted with ---------------------------------------------------------------
static void sorts(std::vector<int> const& v) { std::vector<std::pair<int, int>> x; std::vector<int> along; for (std::size_t i = 0; i < v.size(); ++i) { x.push_back({ v[i], int(i) }); along.push_back(int(i)); } intrusive_sort(x.begin(), x.end(), [&](auto a, auto b) { MC_CHECK(a >= x.begin() && a < x.end() && b >= x.begin() && b < x.end(), "swap", ""); std::swap(*a, *b); std::swap(along[a - x.begin()], along[b - x.begin()]); }, [](auto const& a, auto const& b) { return a.first < b.first; }); std::vector<bool> seen(v.size()); for (std::size_t i = 0; i < v.size(); ++i) { if (i) MC_CHECK(x[i - 1].first <= x[i].first, "sorted", mc::show(v)); MC_CHECK(along[i] == x[i].second && x[i].first == v[along[i]] && !seen[along[i]], "permutation", mc::show(v)); seen[along[i]] = true; } mc::op(); }
MC_SCENARIO("sort/few values") { auto const k = choose(3) + 2; auto const n = int(choose(k == 2 ? mc::tier(15, 19) : k == 3 ? mc::tier(10, 12) : mc::tier(8, 10))); std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(int(choose(k))); sorts(v); mc::validated(); }
MC_SCENARIO("sort/permutations") { auto const n = int(choose(mc::tier(9, 10))); std::vector<int> left, v; for (int i = 0; i < n; ++i) left.push_back(i); while (!left.empty()) { auto const i = choose(std::uint32_t(left.size())); v.push_back(left[i]); left.erase(left.begin() + i); } sorts(v); mc::validated(); }
// longer ones: steps, ramps and sequences worst for a median of three (built by answering comparisons so as to make the pivot small)
MC_SCENARIO("sort/families") { auto const n = choose(mc::tier(70, 200)) + 1; auto const m = choose(n) + 1, a = choose(8), f = choose(4); std::vector<int> v; for (std::uint32_t i = 0; i < n; ++i) v.push_back(int(f == 0 ? (i * a) % m : f == 1 ? (i < m ? i : n - i) : f == 2 ? (i % m) * a + i / m : i == m - 1 ? int(a) - 4 : 0)); sorts(v); mc::validated(); }
MC_SCENARIO("sort/adversary")
{   // antiqsort: values are decided as late as possible, so that every pivot is among the smallest left; then the sequence is sorted again
    int const n = int(choose(mc::tier(120, 400))) + 1; int const gas = n; std::vector<int> val(n, gas); int solid = 0, candidate = -1; std::vector<int> x(n); for (int i = 0; i < n; ++i) x[i] = i; auto const flip = choose(2);
    intrusive_sort(x.begin(), x.end(), [&](auto a, auto b) { std::swap(*a, *b); }, [&](int a, int b) { if (val[a] == gas && val[b] == gas) { if (a == candidate) val[a] = solid++; else val[b] = solid++; } if (val[a] == gas) candidate = a; else if (val[b] == gas) candidate = b; return val[a] < val[b]; });
    for (int i = 0; i < n; ++i) if (val[i] == gas) val[i] = solid++; if (flip) for (auto& y : val) y = n - y; sorts(val); mc::validated();
}
// --- entities -------------------------------------------------------------------------------------------
static bool locked(i_lockable& m) { bool r = false; std::thread t{ [&] { r = !m.try_lock(); if (!r) m.unlock(); } }; t.join(); return r; }
struct defaults : e::entity_archetype { using entity_archetype::entity_archetype; void populate_default_components(e::i_ecs& a, e::entity_id id) final { if (!a.component<plain>().has_entity_record(id)) a.populate(id, plain{ 77 }); } };
static e::entity_archetype const& kind(int n) { static e::entity_archetype const k[] = { { make(101), "A", { make(1) } }, { make(102), "B", { make(1), make(2) } } }; return k[n]; }
static defaults const& defaulted() { static defaults const d{ make(103), "C", { make(3) } }; return d; }
struct ent { int arch, p, h, d; std::int64_t born; bool doomed; };
template <typename C> static int value_of(C& c, id_t_ id) { if (!c.has_entity_record(id)) return -1; auto const& x = c.entity_record(id); if constexpr (requires { x.v.get(); }) return x.v.get(); else return x.v; }
struct entities
{
    world w; bool info; std::map<id_t_, ent> m; std::vector<std::tuple<bool, id_t_>> log; std::vector<ent> coming; std::vector<std::pair<id_t_, bool>> going; sink s; std::vector<std::unique_ptr<e::entity>> raii; std::function<void(id_t_)> on_destroyed;
    entities(bool info) : w{ info ? e::ecs_flags::PopulateEntityInfo : e::ecs_flags::None }, info{ info } { s += w->entity_created([this](id_t_ id) { log.push_back({ true, id }); }); s += w->entity_destroyed([this](id_t_ id) { log.push_back({ false, id }); if (on_destroyed) on_destroyed(id); }); w->register_archetype(kind(0)); }
    ~entities() { for (auto& r : raii) if (!r->detached_or_destroyed()) { if (info && w->archetype_registered(kind(0))) r->detach(); } raii.clear(); s.clear(); }
    std::int64_t now() { return info ? w->system<e::time>().world_time() : 0; }
    void born(id_t_ id, ent x) { MC_CHECK(id != e::null_entity && m.emplace(id, x).second, "id", "an entity created has the id of another: ", id); }
    void check() const
    {
        auto& c = *w.p; auto all = [&](auto& comp, auto get, char const* what) { std::size_t n = 0; for (auto& [id, x] : m) { int const v = get(x); n += v >= 0; MC_CHECK(value_of(comp, id) == v, what, "entity ", id, ": ", value_of(comp, id), " expected ", v); } MC_CHECK(comp.entities().size() == n, what, comp.entities().size(), " records expected ", n); };
        all(c.component<pos>(), [](ent const& x) { return x.p; }, "pos"); all(c.component<hnd>(), [](ent const& x) { return x.h; }, "hnd"); all(c.component<plain>(), [](ent const& x) { return x.d; }, "defaults");
        MC_CHECK(c.component_registered<e::entity_info>() == info, "entity_info", ""); if (info) { auto& infos = c.component<e::entity_info>(); MC_CHECK(infos.entities().size() == m.size(), "entity_info", infos.entities().size(), " expected ", m.size()); for (auto& [id, x] : m) { auto const& i = infos.entity_record(id); MC_CHECK(i.archetypeId == (x.arch == 2 ? defaulted().id() : kind(x.arch).id()) && i.creationTime == x.born && i.destroyed == x.doomed && !i.debug, "entity_info", id); } }
    }
    void arrived(std::size_t n) { MC_CHECK(log.size() >= n, "created", log.size(), " of ", n); }
    void commit_destruction(std::vector<std::tuple<bool, id_t_>>& expect) { for (auto& [id, notify] : going) { auto i = m.find(id); if (i != m.end() && i->second.doomed) { if (notify) expect.push_back({ false, id }); m.erase(i); } } going.clear(); }
    void commit_creation(std::vector<std::tuple<bool, id_t_>> const& before)
    {   // whatever the ids: each is new, and what they have is what was asked for
        std::vector<id_t_> ids; for (auto& [c, id] : log) if (c) ids.push_back(id); MC_CHECK(ids.size() == coming.size(), "created", ids.size(), " expected ", coming.size()); for (auto id : ids) { auto const p = value_of(w->component<pos>(), id), h = value_of(w->component<hnd>(), id); auto x = std::find_if(coming.begin(), coming.end(), [&](ent const& y) { return y.p == p && y.h == h && (!info || w->component<e::entity_info>().entity_record(id).archetypeId == kind(y.arch).id()); }); MC_CHECK(x != coming.end(), "created", "not asked for"); auto y = *x; coming.erase(x); y.born = now(); born(id, y); }
        std::erase_if(log, [](auto const& l) { return std::get<0>(l); }); auto a = log, b = before; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_CHECK(a == b, "events", "");
    }
};
static void entity_states(bool info)
{
    entities x{ info }; auto& w = x.w; int serial = 0; std::vector<id_t_> owned;
    for (;;)
    {
        x.check(); std::uint64_t h = info; for (auto& [id, y] : x.m) { mc::hash_combine(h, id); mc::hash_combine(h, y.arch); mc::hash_combine(h, y.p); mc::hash_combine(h, y.h); mc::hash_combine(h, y.d); mc::hash_combine(h, y.doomed); } for (auto& y : x.coming) { mc::hash_combine(h, y.p); mc::hash_combine(h, y.arch); } for (auto& y : x.going) { mc::hash_combine(h, y.first); mc::hash_combine(h, y.second); } for (auto& r : x.raii) mc::hash_combine(h, r->id()); mc::hash_combine(h, w->archetype_registered(kind(1))); mc::hash_combine(h, w->archetype_registered(defaulted())); mc::hash_combine(h, serial); mc::checkpoint(h);
        x.log.clear(); sFreed.clear(); auto pick = [&] { if (x.m.empty()) throw mc::prune{}; return std::next(x.m.begin(), choose(std::uint32_t(x.m.size())))->first; }; auto is_owned = [&](id_t_ id) { for (auto& r : x.raii) if (r->id() == id) return true; return false; }; auto made = [&](id_t_ id, ent y) { MC_CHECK(x.log == (decltype(x.log){ { true, id } }), "created", ""); x.born(id, y); }; auto freed = [&](int h) { MC_CHECK(sFreed == (h >= 0 ? std::multiset<int>{ h } : std::multiset<int>{}), "handles", ""); };
        switch (choose(15))
        {
        case 0: made(w->create_entity(kind(0).id()), { 0, -1, -1, -1, x.now() }); break;
        case 1: { auto const p = choose(2) ? ++serial : 0; made(w->create_entity(kind(0).id(), pos{ elem(p) }, hnd{ elem(p + 20) }), { 0, p, p + 20, -1, x.now() }); break; }
        case 2: { if (w->archetype_registered(kind(1))) throw mc::prune{}; try { w->create_entity(kind(1).id(), pos{ elem(3) }); mc::fail("archetype", "an archetype that is not registered is accepted"); } catch (e::i_ecs::entity_archetype_not_found const&) {} MC_CHECK(x.log.empty(), "archetype", "an entity of an archetype that is not registered"); break; }
        case 3: { auto const r = choose(3); if (r == 0) { auto const there = w->archetype_registered(kind(1)); try { w->register_archetype(kind(1)); MC_CHECK(!there, "register", ""); } catch (e::i_ecs::uuid_exists const&) { MC_CHECK(there, "register", ""); } } else if (r == 1) made(w->create_entity(defaulted(), pos{ elem(4) }), { 2, 4, -1, 77, x.now() }); else made(w->create_entity(defaulted(), plain{ 5 }), { 2, -1, -1, 5, x.now() }); break; }
        case 4: { auto const p = choose(2) ? ++serial : 0; if (choose(2)) { w.i().async_create_entity(kind(1), pos{ elem(p) }); x.coming.push_back({ 1, p, -1, -1 }); } else { w.i().async_create_entity(kind(0).id(), pos{ elem(p) }, hnd{ elem(p) }); x.coming.push_back({ 0, p, p, -1 }); } MC_CHECK(x.log.empty(), "async create", ""); break; }
        case 5: w->commit_async_entity_creation(); x.commit_creation({}); break;
        case 6: { auto const id = pick(); bool const notify = is_owned(id) || !choose(2); w->destroy_entity(id, notify); freed(x.m[id].h); x.m.erase(id); MC_CHECK(x.log == (notify ? decltype(x.log){ { false, id } } : decltype(x.log){}), "destroyed", ""); break; }
        case 7: { if (!info) { try { w->async_destroy_entity(1); mc::fail("async destroy", "without information"); } catch (e::component<e::entity_info>::entity_record_not_found const&) {} catch (e::i_ecs::component_not_found const&) {} throw mc::prune{}; } auto const id = pick(); bool const notify = is_owned(id) || !choose(2); w->async_destroy_entity(id, notify); if (!x.m[id].doomed) { x.m[id].doomed = true; x.going.push_back({ id, notify }); } MC_CHECK(x.log.empty() && sFreed.empty(), "async destroy", ""); break; }
        case 8: { std::vector<std::tuple<bool, id_t_>> expect; std::multiset<int> h; for (auto& g : x.going) if (x.m.count(g.first) && x.m[g.first].doomed && x.m[g.first].h >= 0) h.insert(x.m[g.first].h); x.commit_destruction(expect); w->commit_async_entity_destruction(); auto a = x.log; std::sort(a.begin(), a.end()); std::sort(expect.begin(), expect.end()); MC_CHECK(a == expect, "destroyed", a.size(), " expected ", expect.size()); MC_CHECK(sFreed == h, "handles", ""); break; }
        case 9: { auto const id = pick(); auto const v = int(choose(2)) + 8; if (choose(2)) { w->populate(id, pos{ elem(v) }, hnd{ elem(v) }); x.m[id].h = v; } else w->populate(id, pos{ elem(v) }); x.m[id].p = v; break; }
        case 10: { auto const id = pick(); if (x.m[id].h < 0) throw mc::prune{}; w->component<hnd>().destroy_entity_record(id); freed(x.m[id].h); x.m[id].h = -1; break; }
        case 11: { if (x.raii.size() > 1) throw mc::prune{}; if (choose(2)) { x.raii.push_back(std::make_unique<e::entity>(*w, kind(0).id(), pos{ elem(9) })); made(x.raii.back()->id(), { 0, 9, -1, -1, x.now() }); } else { x.raii.push_back(std::make_unique<e::entity>(*w, kind(0).id())); made(x.raii.back()->id(), { 0, -1, -1, -1, x.now() }); } MC_CHECK(&x.raii.back()->ecs() == &*w, "entity", ""); break; }
        case 12: { if (x.raii.empty()) throw mc::prune{}; auto const id = x.raii.back()->id(); MC_CHECK((id == e::null_entity) == x.raii.back()->detached_or_destroyed() && (id == e::null_entity || x.m.count(id)), "entity", "follows an entity that is no more"); if (info && choose(2) && id != e::null_entity) { MC_CHECK(x.raii.back()->detach() == id && x.raii.back()->detached_or_destroyed(), "detach", ""); x.raii.pop_back(); MC_CHECK(x.log.empty(), "detach", "destroyed"); break; } x.raii.pop_back(); MC_CHECK(x.log == (id != e::null_entity ? decltype(x.log){ { false, id } } : decltype(x.log){}), "entity", ""); if (id != e::null_entity) { freed(x.m[id].h); x.m.erase(id); } break; }
        case 13: { std::vector<std::tuple<bool, id_t_>> expect; x.commit_destruction(expect); w.tick(); x.commit_creation(expect); break; }
        case 14: if (!info) throw mc::prune{}; w->shared_component<e::clock>()[0].time = x.now() + 10; break;
        }
    }
}
MC_STATESPACE("entities/with information", 5, 7) { entity_states(true); }
MC_STATESPACE("entities/without", 5, 7) { entity_states(false); }
// what a handler of the destruction may do: destroy another entity, create one, use a component for the first time; and no mutex is left locked, nor unlocked by somebody else
MC_SCENARIO("entities/handlers")
{
    auto const strategy = choose(4); services::service<e::i_ecs_params>().set_locking_strategy(static_cast<e::ecs_locking_strategy>(strategy));
    {
        entities x{ true }; auto& w = x.w; std::set<id_t_> alive; std::vector<id_t_> ids; for (int i = 0; i < 3; ++i) { ids.push_back(w->create_entity(kind(0).id(), pos{ elem(i) })); alive.insert(ids.back()); } auto const what = choose(6); int news = 0; auto const late = choose(3);
        auto first_use = [&](id_t_ id) { switch (late) { case 0: w->populate(id, plain{ 1 }); break; case 1: w->create_entity(kind(0).id(), plain{ 2 }, hnd{ elem(3) }); ++news; break; case 2: break; } };
        x.on_destroyed = [&](id_t_ id) { if (id != ids[0]) return; switch (what) { case 0: w->async_destroy_entity(ids[1]); break; case 1: w->destroy_entity(ids[1]); break; case 2: w->create_entity(kind(0).id(), pos{ elem(5) }); ++news; break; case 3: w.i().async_create_entity(kind(0).id(), pos{ elem(6) }); ++news; break; case 4: first_use(ids[2]); break; case 5: first_use(ids[0]); break; } };
        auto const how = choose(3); if (how == 0) w->destroy_entity(ids[0]); else { w->async_destroy_entity(ids[0]); if (how == 2) w->async_destroy_entity(ids[2]); w->async_create_entity([&] { w->create_entity(kind(0).id(), hnd{ elem(9) }, plain{ 9 }); }); ++news; } for (int i = 0; i < 3; ++i) w.tick();
        alive.erase(ids[0]); if (what <= 1) alive.erase(ids[1]); if (how == 2) alive.erase(ids[2]);
        auto& infos = w->component<e::entity_info>(); std::set<id_t_> seen(infos.entities().begin(), infos.entities().end()); MC_CHECK(seen.size() == infos.entities().size() && seen.size() == alive.size() + news, "alive", seen.size(), " expected ", alive.size() + news); int destroyed = 0; for (auto& [c, id] : x.log) destroyed += !c; MC_CHECK(destroyed == int(3 - alive.size()), "events", destroyed); for (auto id : ids) MC_CHECK(alive.count(id) <= seen.count(id), "alive", id);
        if (strategy != 0) for (i_lockable* m : std::initializer_list<i_lockable*>{ &w->component<pos>().mutex(), &w->component<hnd>().mutex(), &w->component<plain>().mutex(), &infos.mutex(), &w->mutex(), &w->entity_mutex(), &w->component_mutex(), &w->system_mutex() }) { MC_CHECK(!locked(*m), "mutex", "left locked"); m->lock(); MC_CHECK(locked(*m), "mutex", "does not lock"); m->unlock(); MC_CHECK(!locked(*m), "mutex", "left locked"); } x.on_destroyed = nullptr;
    }
    services::service<e::i_ecs_params>().set_locking_strategy(e::ecs_locking_strategy::MultiThreaded); mc::op(); mc::validated();
}
// --- handles -------------------------------------------------------------------------------------------
MC_STATESPACE("handles", 6, 9)
{
    world w; std::map<e::handle_id, int*> m; static int things[8]; int serial = 0; std::size_t most = 0;
    for (;;)
    {
        std::uint64_t h = most; for (auto& [id, p] : m) { mc::hash_combine(h, id); mc::hash_combine(h, p - things); MC_CHECK(w.i().to_handle<int*>(id) == p, "to_handle", id); } mc::checkpoint(h); auto pick = [&] { if (m.empty()) throw mc::prune{}; return std::next(m.begin(), choose(std::uint32_t(m.size()))); };
        switch (choose(4))
        {
        case 0: { auto const p = &things[serial++ % 8]; auto const id = w.i().add_handle<world>(p); MC_CHECK(id != e::null_id && m.emplace(id, p).second, "add_handle", "the id of another handle: ", id); most = std::max(most, m.size()); break; }
        case 1: { auto const i = pick(); auto const p = &things[choose(8)]; MC_CHECK(w.i().update_handle<world>(i->first, p) == p, "update_handle", ""); i->second = p; break; }
        case 2: { auto const i = pick(); MC_CHECK(w.i().release_handle<int*>(i->first) == i->second, "release_handle", ""); m.erase(i); break; }
        case 3: { auto const beyond = e::handle_id(most + 1 + choose(3)); auto throws = [&](auto f, char const* what) { try { f(); mc::fail(what, "a handle there never was"); } catch (e::i_ecs::invalid_handle_id const&) {} }; throws([&] { w.i().to_handle<int*>(beyond); }, "to_handle"); throws([&] { w.i().update_handle<world>(beyond, &things[0]); }, "update_handle"); throws([&] { w.i().release_handle<int*>(beyond); }, "release_handle"); throw mc::prune{}; }
        }
    }
}
// --- shared components ---------------------------------------------------------------------------------
MC_STATESPACE("shared", 6, 9)
{
    world w; auto& c = w->shared_component<sha>(); auto const& k = c; std::map<std::string, int> m; std::map<std::string, void const*> at; MC_CHECK(w->shared_component_registered<sha>() && w->shared_component_instantiated<sha>() && !w->component_registered<sha>(), "registered", "");
    for (;;)
    {
        std::uint64_t h = 0; for (auto& [n, v] : m) { mc::hash_combine(h, n[0]); mc::hash_combine(h, v); MC_CHECK(k[n].v.get() == v && (void const*)&k[n] == at[n], "data", n); } std::map<std::string, int> seen; for (std::size_t i = 0; i < k.component_data().size(); ++i) { bool found = false; for (auto& [n, v] : m) if (at[n] == (void const*)&k[i]) { found = true; seen[n] = v; } MC_CHECK(found, "index", i); } MC_CHECK(seen == m, "size", seen.size()); mc::checkpoint(h);
        std::string const n(1, char('a' + choose(4))); auto const v = int(choose(3)); sUpdates = 0; void const* r = nullptr; int updates = 1;
        switch (choose(6))
        {
        case 0: { sha x{ elem(v) }; r = c.populate(n, x).ptr(); break; }
        case 1: r = c.populate(n, sha{ elem(v) }).ptr(); break;
        case 2: { sha x{ elem(v) }; r = c.populate(n, &x, sizeof(x)); for (auto s : { sizeof(x) - 1, sizeof(x) + 1 }) try { c.populate(n, &x, s); mc::fail("populate", "data of any size"); } catch (e::shared_component<sha>::invalid_data const&) {} try { c.populate(n, nullptr, sizeof(x)); mc::fail("populate", "no data"); } catch (e::shared_component<sha>::invalid_data const&) {} break; }
        case 3: w->populate_shared(n, sha{ elem(v) }); r = &c[n]; break;
        case 4: if (!m.count(n)) { try { (void)k[n]; mc::fail("operator[]", "data there is not"); } catch (std::out_of_range const&) {} throw mc::prune{}; } c[n].v = elem(v); r = &k[n]; updates = 0; break;
        case 5: { if (!m.count(n) || v) throw mc::prune{}; e::shared<sha> a{ c[n] }, b, d{ &c[n] }; MC_CHECK(a && !b && a.ptr() == at[n] && &*d == a.ptr() && a->v.get() == m[n], "shared", ""); b = c[n]; MC_CHECK(b.ptr() == a.ptr(), "shared", ""); b = nullptr; MC_CHECK(!b, "shared", ""); throw mc::prune{}; }
        }
        MC_CHECK(sUpdates == updates, "updater", sUpdates); if (at.count(n)) MC_CHECK(at[n] == r, "address", n); at[n] = r; m[n] = v;
    }
}
// --- systems --------------------------------------------------------------------------------------------
static int sApplied[3]; static int sSpawn;
template <int N, bool Iter> struct sys : e::system<pos> { sys(e::i_ecs& a) requires (!Iter) : e::system<pos>{ a } {} sys(e::i_ecs& a, std::vector<e::component_id> v = { make(1), make(2) }) requires Iter : e::system<pos>{ a, v.begin(), v.end() } {} e::system_id const& id() const override { return meta::id(); } i_string const& name() const override { return meta::name(); } bool apply() override; struct meta { static const uuid& id() { static uuid const u = make(200 + N); return u; } static const i_string& name() { static string const s{ "s" + std::to_string(N) }; return s; } }; };
typedef sys<0, false> sys0; typedef sys<1, false> sys1; typedef sys<2, true> sys2;
static e::i_system& use(e::ecs& a, int n) { switch (n) { case 0: return a.system<sys0>(); case 1: return a.system<sys1>(); default: return a.system<sys2>(); } }
template <int N, bool I> bool sys<N, I>::apply() { if (paused()) return false; ++sApplied[N]; if (sSpawn >= 0) { auto const n = sSpawn; sSpawn = -1; use(static_cast<e::ecs&>(ecs()), n); for (int i = 0; i < 40; ++i) ecs().template component<pos>(); } return true; }
MC_STATESPACE("systems", 6, 8)
{
    bool const paused_at_first = choose(2); world w{ paused_at_first ? e::ecs_flags::CreatePaused : e::ecs_flags::None }; bool all = paused_at_first; int count[3] = { -1, -1, -1 }; int events[2] = {}; sink s; s += w->systems_paused([&] { ++events[0]; }); s += w->systems_resumed([&] { ++events[1]; }); auto made = [&](int n) { if (count[n] < 0) count[n] = all; };
    for (;;)
    {
        std::uint64_t h = all; for (int n = 0; n < 3; ++n) { mc::hash_combine(h, count[n]); auto const is = n == 0 ? w->system_instantiated<sys0>() : n == 1 ? w->system_instantiated<sys1>() : w->system_instantiated<sys2>(); MC_CHECK(is == (count[n] >= 0), "instantiated", n); if (is) { auto& y = use(*w, n); MC_CHECK(y.paused() == (count[n] > 0), "paused", n, " ", count[n]); MC_CHECK(&y.ecs() == &*w && y.components().size() == (n == 2 ? 2u : 1u) && y.components_available() && y.can_apply() && !y.waiting(), "system", n); } } MC_CHECK(w->all_systems_paused() == all, "all_systems_paused", ""); mc::checkpoint(h);
        int const n = int(choose(3)); events[0] = events[1] = 0;
        switch (choose(6))
        {
        case 0: use(*w, n); made(n); break;
        case 1: if (count[n] < 0 || count[n] > 2) throw mc::prune{}; use(*w, n).pause(); ++count[n]; break;
        case 2: if (count[n] <= int(all)) throw mc::prune{}; use(*w, n).resume(); --count[n]; break;
        case 3: if (n) throw mc::prune{}; w->pause_all_systems(); MC_CHECK(events[0] == !all && !events[1], "event", ""); if (!all) for (auto& c : count) if (c >= 0) ++c; all = true; break;
        case 4: if (n) throw mc::prune{}; w->resume_all_systems(); MC_CHECK(events[1] == all && !events[0], "event", ""); if (all) for (auto& c : count) if (c > 0) --c; all = false; break;
        case 5: { sSpawn = choose(2) ? n : -1; if (sSpawn < 0 && n) throw mc::prune{}; auto const spawn = sSpawn; for (auto& a : sApplied) a = 0; bool some = false; int expect[3]; for (int i = 0; i < 3; ++i) { expect[i] = count[i] == 0; some = some || expect[i]; } w.tick(); if (spawn >= 0 && some) { auto const young = count[spawn] < 0; made(spawn); MC_CHECK(sSpawn == -1, "apply", ""); if (young && count[spawn] == 0 && sApplied[spawn] == 1) expect[spawn] = 1; } sSpawn = -1; for (int i = 0; i < 3; ++i) MC_CHECK(sApplied[i] == expect[i], "apply", "system ", i, " is applied ", sApplied[i], " times, expected ", expect[i]); break; }
        }
    }
}
// --- time -----------------------------------------------------------------------------------------------
MC_STATESPACE("life spans", 5, 7)
{
    world w{ e::ecs_flags::PopulateEntityInfo }; auto const early = choose(3); if (early == 1) w->register_shared_component<e::clock>(); else if (early == 2) w->shared_component<e::clock>(); std::map<id_t_, std::pair<std::int64_t, std::int64_t>> m; std::int64_t now = 0; w->register_archetype(kind(0)); std::vector<id_t_> gone; sink s; s += w->entity_destroyed([&](id_t_ id) { gone.push_back(id); }); bool there = false;
    for (;;)
    {
        std::uint64_t h = now; for (auto& [id, x] : m) { mc::hash_combine(h, id); mc::hash_combine(h, x.first); mc::hash_combine(h, x.second); auto const& i = w->component<e::entity_info>().entity_record(id); MC_CHECK(i.creationTime == x.first && !i.destroyed, "information", id); } if (there) MC_CHECK(w->system<e::time>().world_time() == now, "world_time", ""); mc::hash_combine(h, there); mc::hash_combine(h, early); mc::checkpoint(h); gone.clear();
        switch (choose(5))
        {
        case 0: { auto const span = std::int64_t(choose(4)) * 10 - 10; auto const id = w->create_entity(kind(0).id(), e::entity_life_span{ span }); MC_CHECK(m.emplace(id, std::make_pair(now, span)).second, "id", id); there = true; break; }
        case 1: { auto const id = w->create_entity(kind(0).id()); MC_CHECK(m.emplace(id, std::make_pair(now, std::int64_t(-1000))).second, "id", id); there = true; break; }
        case 2: { if (!there) throw mc::prune{}; now += choose(3) * 5; auto& c = w->shared_component<e::clock>(); MC_CHECK(c.component_data().size() == 1, "clock", c.component_data().size()); c[0].time = now; break; }
        case 3: { std::set<id_t_> expect; for (auto i = m.begin(); i != m.end(); ) if (i->second.second != -1000 && now - i->second.first > i->second.second) { expect.insert(i->first); i = m.erase(i); } else ++i; w.tick(); MC_CHECK(gone.size() == expect.size() && std::set<id_t_>(gone.begin(), gone.end()) == expect, "life span", gone.size(), " expected ", expect.size()); break; }
        case 4: { if (m.empty()) throw mc::prune{}; auto const i = std::next(m.begin(), choose(std::uint32_t(m.size()))); w->async_destroy_entity(i->first); if (choose(2)) { w->destroy_entity(i->first); MC_CHECK(gone.size() == 1, "destroyed", ""); m.erase(i); break; } auto const id = i->first; std::set<id_t_> expect{ id }; for (auto j = m.begin(); j != m.end(); ) if (j->first == id || (j->second.second != -1000 && now - j->second.first > j->second.second)) { expect.insert(j->first); j = m.erase(j); } else ++j; w.tick(); MC_CHECK(gone.size() == expect.size() && std::set<id_t_>(gone.begin(), gone.end()) == expect, "destroyed", gone.size(), " times, expected ", expect.size()); break; }
        }
    }
}
template <typename M> static void fields(std::initializer_list<e::component_data_field_type> types) { std::uint32_t n = 0; for (auto t : types) { MC_CHECK(M::field_type(n) == t, "field_type", n); MC_CHECK(!M::field_name(n).empty(), "field_name", n); ++n; } MC_CHECK(M::field_count() == n, "field_count", n); for (auto i : { n, n + 1, n + 2 }) try { M::field_type(i); mc::fail("field_type", "a field there is not"); } catch (typename M::invalid_field_index const&) {} }
MC_SCENARIO("fields, archetypes and step time")
{
    typedef e::component_data_field_type F; fields<e::clock::meta>({ F::Int64 | F::Atomic, F::Int64, F::Float64, F::Int64 }); fields<e::entity_info::meta>({ F::Uuid, F::Int64, F::Bool | F::Atomic, F::Bool | F::Atomic }); fields<e::entity_life_span::meta>({ F::Int64 });
    e::entity_archetype a{ kind(1) }; e::entity_archetype b{ std::move(a) }; for (auto x : { &b, const_cast<e::entity_archetype*>(&kind(1)) }) { MC_CHECK(x->id() == make(102) && x->name() == string{ "B" } && x->components().size() == 2, "archetype", ""); std::set<uuid> s; for (auto const& c : x->components()) s.insert(c); MC_CHECK(s == (std::set<uuid>{ make(1), make(2) }), "archetype", ""); } e::entity_archetype c{ "X", {} }, d{ "X", {} }; MC_CHECK(!(c.id() == d.id()), "archetype", "ids");
    for (int k = -40; k <= 40; ++k) for (std::int64_t step : { 1, 7, 7056000 }) { auto const t = e::to_step_time(k * 0.01, step); MC_CHECK(t % step == 0, "to_step_time", k); auto const exact = e::chrono::to_flicks(k * 0.01).count(); MC_CHECK(std::abs(exact - t) < step && (exact >= 0 ? t <= exact : t >= exact), "to_step_time", k); } for (std::int64_t f : { 0, 1, 705600000, -705600000, 352800000 }) MC_CHECK(e::from_step_time(f) == double(f) / 705600000.0, "from_step_time", f);
    mc::op(); mc::validated();
}
// --- locks ----------------------------------------------------------------------------------------------
MC_STATESPACE("locks", 5, 7)
{
    world w; auto& a = w->component<pos>().mutex(); auto& b = w->component<hnd>().mutex(); auto& c = w->component<plain>().mutex(); int na = 0, nb = 0, nc = 0; typedef e::scoped_component_data_lock<pos, hnd> two; typedef e::scoped_component_lock<e::component<pos>, e::component<plain>> comps; std::unique_ptr<two> t; bool ta = false, tb = false; std::unique_ptr<comps> k; std::unique_ptr<e::scoped_component_data_relock<pos>> r; std::unique_ptr<e::scoped_component_relock<e::component<pos>, e::component<plain>>> q; std::unique_ptr<e::scoped_component_data_lock<plain>> one; bool took = false;
    auto done = [&] { r.reset(); q.reset(); t.reset(); k.reset(); one.reset(); if (took) a.unlock(); }; struct guard { std::function<void()> f; ~guard() { f(); } } g{ done };
    for (;;)
    {
        MC_CHECK(locked(a) == (na > 0) && locked(b) == (nb > 0) && locked(c) == (nc > 0), "locked", na, nb, nc); std::uint64_t h = 0; for (auto x : { na, nb, nc, int(!!t), int(ta), int(tb), int(!!k), int(!!r), int(!!q), int(!!one), int(took) }) mc::hash_combine(h, x); mc::checkpoint(h);
        switch (choose(9))
        {
        case 0: if (t) throw mc::prune{}; t = std::make_unique<two>(*w); ta = tb = true; ++na; ++nb; break;
        case 1: if (!t || r) throw mc::prune{}; t.reset(); na -= ta; nb -= tb; ta = tb = false; break;
        case 2: if (!t || !ta || r || took) throw mc::prune{}; MC_CHECK(&t->mutex<pos>() == static_cast<i_lockable*>(&a) && !t->controlling<pos>() && t->controlling<hnd>() == tb, "mutex", ""); ta = false; took = true; break; // ours to unlock now
        case 3: if (!took) throw mc::prune{}; a.unlock(); --na; took = false; break;
        case 4: if (!t || r) throw mc::prune{}; r = std::make_unique<e::scoped_component_data_relock<pos>>(*t); na -= ta; break;
        case 5: if (!r) throw mc::prune{}; r.reset(); na += ta; break;
        case 6: if (k) { if (q) throw mc::prune{}; k.reset(); --na; --nc; } else { k = std::make_unique<comps>(w->component<pos>(), w->component<plain>()); ++na; ++nc; } break;
        case 7: if (!k) throw mc::prune{}; if (q) { q.reset(); ++na; ++nc; } else { q = std::make_unique<e::scoped_component_relock<e::component<pos>, e::component<plain>>>(*k); --na; --nc; } break;
        case 8: if (one) { one.reset(); --nc; } else { one = std::make_unique<e::scoped_component_data_lock<plain>>(*w); ++nc; } break;
        }
    }
}
