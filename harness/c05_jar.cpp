// @props C05
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// Jars: every operation sequence as a state space (object graph of the jar plus the reserved cookies); reference model:
// map cookie -> value plus the set of cookies handed out and not yet used.  Assertions are compiled out, so that misuse
// which the interface reports by exception (unknown, removed or already used cookies) is reported that way.
#define NDEBUG
#include "seqcheck.hpp"
#include <neolib/core/jar.hpp>
#include <set>
#include <map>
#include <memory>
using mc::choose; using mc::elem;
namespace
{
    struct boom {};
    struct thing : neolib::reference_counted<neolib::i_reference_counted> { elem e; thing(int v) : e(v) {} };
    enum class tiny : std::uint8_t {};
    template <typename T> int value(T const& t) { if constexpr (requires { t.get()->e; }) return t.get()->e.get(); else if constexpr (requires { t->get(); }) return t->get(); else if constexpr (requires { t->e; }) return t->e.get(); else return t.get(); }
    struct state { std::map<int, int> live; std::set<int> held; int high = 0; };
}
template <typename Jar>
static void same(Jar& j, state const& s, int top, const char* who)
{
    using C = typename Jar::cookie_type; Jar const& c = j;
    MC_CHECK(c.size() == s.live.size() && c.empty() == s.live.empty(), "size", who, ": ", c.size(), " expected ", s.live.size());
    for (int i = 0; i <= top + 1; ++i)
    {
        auto l = s.live.find(i); C k = C(i);
        MC_CHECK(c.contains(k) == (l != s.live.end()), "contains", who, " cookie ", i);
        MC_CHECK((c.find(k) == c.end()) == (l == s.live.end()) && (j.find(k) == j.end()) == (l == s.live.end()), "find", who, " cookie ", i);
        if (l != s.live.end())
        {
            MC_CHECK(value(c[k]) == l->second && value(j[k]) == l->second && value(*j.find(k)) == l->second && value(*c.find(k)) == l->second, "item", who, " cookie ", i);
            MC_CHECK(c.item_cookie(j[k]) == k, "item_cookie", who, " cookie ", i);
        }
        else { bool threw = false; try { (void)c[k]; } catch (neolib::cookie_invalid const&) { threw = true; } MC_CHECK(threw, "unknown", who, " cookie ", i); }
    }
    C inv = neolib::invalid_cookie<C>; MC_CHECK(!c.contains(inv), "contains", "invalid cookie");
    std::multiset<int> got, want; std::size_t at = 0; for (auto const& l : s.live) want.insert(l.second);
    for (auto i = c.begin(); i != c.end(); ++i, ++at) { MC_CHECK(at < s.live.size(), "iteration", who); got.insert(value(*i)); MC_CHECK(&c.at_index(at) == &*i && &j.at_index(at) == &*i, "at_index", who, at); auto k = int(c.item_cookie(*i)); MC_CHECK(s.live.count(k) && s.live.at(k) == value(*i), "item_cookie", who); }
    MC_CHECK(got == want, "iteration", who, ": ", mc::show(got), " expected ", mc::show(want));
    bool threw = false; try { (void)c.at_index(s.live.size()); } catch (std::out_of_range const&) { threw = true; } MC_CHECK(threw, "at_index", who);
}
template <typename Jar, typename Add>
static void explore(int maxLive, int maxHeld, int top, bool copying, Add put)
{
    using C = typename Jar::cookie_type;
    int nextId = 1; state s; mc::holder<Jar> a;
    auto fresh = [&](C k, state& st, const char* who) { int i = int(k); MC_CHECK(i != 0 && k != neolib::invalid_cookie<C>, "no-cookie", who, " gave ", i); MC_CHECK(!st.live.count(i), "cookie-in-use", who, " gave the live cookie ", i); MC_CHECK(!st.held.count(i), "cookie-in-use", who, " gave the reserved cookie ", i); if (i > top) throw mc::prune{}; st.high = std::max(st.high, i); };
    auto liveAt = [&](std::uint32_t n) { return std::next(s.live.begin(), n)->first; };
    auto rejects = [&](auto f, const char* what) { bool threw = false; try { f(); } catch (neolib::cookie_invalid const&) { threw = true; } MC_CHECK(threw, "unknown", what, " accepted a cookie nothing is stored under"); };
    for (;;)
    {
        std::uint64_t h = mc::heap_hash({ a.r() }); for (int x : s.held) mc::hash_combine(h, x); mc::hash_combine(h, s.high); mc::checkpoint(h);
        auto const n = std::uint32_t(s.live.size()); bool const room = int(n) + int(s.held.size()) < maxLive;
        switch (choose(copying ? 10 : 9))
        {
        case 0: { if (!room) throw mc::prune{}; int v = nextId++; MC_TRACE("insert ", v); C k = put.insert(*a, v); fresh(k, s, "insert"); s.live[int(k)] = v; break; }
        case 1: { if (!room) throw mc::prune{}; int v = nextId++; MC_TRACE("emplace ", v); C k = put.emplace(*a, v); fresh(k, s, "emplace"); s.live[int(k)] = v; break; }
        case 2: { if (!room || int(s.held.size()) >= maxHeld) throw mc::prune{}; MC_TRACE("next_cookie"); C k = a->next_cookie(); fresh(k, s, "next_cookie"); s.held.insert(int(k)); break; }
        case 3: { if (s.held.empty()) throw mc::prune{}; auto k = *std::next(s.held.begin(), choose(std::uint32_t(s.held.size()))); s.held.erase(k);
            if (choose(2)) { MC_TRACE("return_cookie ", k); a->return_cookie(C(k)); }
            else { int v = nextId++; MC_TRACE("add ", k); auto r = put.add(*a, C(k), v); s.live[k] = v; MC_CHECK(value(*r) == v && int(a->item_cookie(*r)) == k, "returned", "add"); } break; }
        case 4: { if (!room) throw mc::prune{}; int k = 1 + choose(top); if (s.held.count(k)) throw mc::prune{};
            if (s.live.count(k)) { MC_TRACE("add live ", k); bool threw = false; try { put.add(*a, C(k), -5); } catch (neolib::cookie_already_added const&) { threw = true; } MC_CHECK(threw, "duplicate", "add accepted the live cookie ", k); }
            else { /* a cookie of the caller's choosing, above all so far (the others may be kept by the jar for reuse) */
                if (k <= s.high) throw mc::prune{};
                int v = nextId++; MC_TRACE("add chosen ", k); auto r = put.add(*a, C(k), v); s.live[k] = v; s.high = k; MC_CHECK(value(*r) == v && int(a->item_cookie(*r)) == k, "returned", "add"); } break; }
        case 5: { if (!n) throw mc::prune{}; int k = liveAt(choose(n)); std::vector<int> before; for (auto i = a->begin(); i != a->end(); ++i) before.push_back(value(*i)); int v = s.live[k]; std::size_t pos = std::find(before.begin(), before.end(), v) - before.begin();
            auto how = choose(3); MC_TRACE(how == 0 ? "remove cookie " : how == 1 ? "remove item " : "erase ", k);
            typename Jar::iterator r = how == 0 ? a->remove(C(k)) : how == 1 ? a->remove((*a)[C(k)]) : a->erase(typename Jar::const_iterator(a->find(C(k)))); s.live.erase(k);
            std::size_t rp = 0; for (auto i = a->begin(); i != r; ++i, ++rp) { MC_CHECK(i != a->end(), "returned", "remove: position not reached"); } MC_CHECK(rp == pos, "returned", "remove: position ", rp, " expected ", pos);
            for (std::size_t i = 0; i < pos; ++i) MC_CHECK(value(a->at_index(i)) == before[i], "moved", "remove disturbed an item before the removed one");
            break; }
        case 6: { int k = choose(top + 3); if (k == top + 2) k = int(neolib::invalid_cookie<C>); if (s.live.count(k)) throw mc::prune{}; MC_TRACE("remove unknown ", k); rejects([&] { a->remove(C(k)); }, "remove"); break; }
        case 7: { if (!room) throw mc::prune{}; auto w = choose(3); MC_TRACE("throwing item ", w); bool threw = false; try { if (w == 0) put.throwing_insert(*a); else if (w == 1) put.throwing_emplace(*a); else { if (s.held.empty()) throw mc::prune{}; put.throwing_add(*a, C(*s.held.begin())); } } catch (boom&) { threw = true; } MC_CHECK(threw, "exception", "swallowed"); if (w < 2) ++s.high; break; }
        case 8: { MC_TRACE("clear"); a->clear(); s = state{}; break; }
        case 9: if constexpr (std::is_copy_constructible_v<typename Jar::value_type>) { auto w = choose(7); MC_TRACE("copying ", w);
            Jar b; state t; int others = w >= 2 ? int(choose(3)) : 0; for (int i = 0; i < others; ++i) { int v = nextId++; C k = put.insert(b, v); fresh(k, t, "insert"); t.live[int(k)] = v; } if (others == 2) { int k = t.live.begin()->first; b.remove(C(k)); t.live.erase(k); }
            switch (w) {
                case 0: { Jar c{ *a }; same(c, s, top, "copy"); C k = put.insert(c, 99); state u = s; fresh(k, u, "insert into copy"); u.live[int(k)] = 99; same(c, u, top, "copy"); c.clear(); same(c, state{}, top, "copy"); break; }
                case 1: { Jar c{ std::move(*a) }; same(c, s, top, "moved-to"); if (!s.live.empty()) { c.remove(C(s.live.begin()->first)); } s = state{}; break; }
                case 2: b = *a; t = s; break;
                case 3: *a = b; s = t; break;
                case 4: *a = std::move(b); s = t; t = state{}; break;
                case 5: b = std::move(*a); t = s; s = state{}; break;
                case 6: { Jar& r = *a; *a = r; break; }
            }
            same(b, t, top, "b"); if (int(s.live.size()) > maxLive) throw mc::prune{}; break; }
            else throw mc::prune{};
        }
        same(*a, s, top, "a");
        mc::validated();
    }
}
namespace
{
    // how a jar of each kind is filled
    struct bang { operator elem() const { throw boom{}; } operator std::shared_ptr<elem>() const { throw boom{}; } operator int() const { throw boom{}; } };
    struct plain
    {
        template <typename J> auto insert(J& j, int v) { elem e(v); return j.insert(e); }
        template <typename J> auto emplace(J& j, int v) { return j.emplace(v); }
        template <typename J, typename C> auto add(J& j, C k, int v) { if (v & 1) return j.add(k, v); elem e(v); return j.add(k, e); }
        template <typename J> void throwing_insert(J& j) { j.emplace(bang{}); }
        template <typename J> void throwing_emplace(J& j) { j.emplace(bang{}); }
        template <typename J, typename C> void throwing_add(J& j, C k) { j.add(k, bang{}); }
    };
    struct shared
    {
        template <typename J> auto insert(J& j, int v) { return j.insert(std::make_shared<elem>(v)); }
        template <typename J> auto emplace(J& j, int v) { return j.emplace(v); }
        template <typename J, typename C> auto add(J& j, C k, int v) { return j.add(k, std::make_shared<elem>(v)); }
        template <typename J> void throwing_insert(J& j) { j.emplace(bang{}); }
        template <typename J> void throwing_emplace(J& j) { j.emplace(bang{}); }
        template <typename J, typename C> void throwing_add(J& j, C k) { j.add(k, bang{}); }
    };
    struct unique
    {
        template <typename J> auto insert(J& j, int v) { return j.emplace(v); }
        template <typename J> auto emplace(J& j, int v) { return j.emplace(std::make_unique<elem>(v)); }
        template <typename J, typename C> auto add(J& j, C k, int v) { return j.add(k, std::make_unique<elem>(v)); }
        template <typename J> void throwing_insert(J& j) { j.emplace(bang{}); }
        template <typename J> void throwing_emplace(J& j) { j.emplace(bang{}); }
        template <typename J, typename C> void throwing_add(J& j, C k) { j.add(k, bang{}); }
    };
}
MC_STATESPACE("jar/elem", 6, 40) { explore<neolib::jar<elem>>(mc::tier(3, 4), 2, mc::tier(4, 5), true, plain{}); }
MC_STATESPACE("std_vector_jar/elem", 6, 40) { explore<neolib::std_vector_jar<elem>>(mc::tier(3, 4), 2, mc::tier(4, 5), true, plain{}); }
MC_STATESPACE("std_vector_jar/shared_ptr", 5, 8) { explore<neolib::std_vector_jar<std::shared_ptr<elem>>>(mc::tier(2, 3), 1, mc::tier(3, 4), true, shared{}); }
MC_STATESPACE("std_vector_jar/unique_ptr", 6, 10) { explore<neolib::basic_std_vector_jar<std::unique_ptr<elem>>>(mc::tier(2, 3), 1, mc::tier(3, 4), false, unique{}); }
MC_STATESPACE("small_jar/elem", 5, 8) { explore<neolib::small_jar<elem>>(mc::tier(2, 3), 1, mc::tier(3, 4), true, plain{}); }
template <typename J> static void exhaustion()
{   // the last cookies of a one byte cookie type: exhaustion is reported every time, and ends when a cookie comes back
    using C = typename J::cookie_type;
    mc::holder<J> a; std::set<int> live, held; int const first = 0xFC + int(choose(3)); a->add(C(first), 1); live.insert(first); bool exhausted = first == 0xFE; if (choose(2)) { a->add(C(1), 2); live.insert(1); }
    int returned = 0; auto const origin = live;
    for (;;)
    {
        std::uint64_t h = mc::heap_hash({ a.r() }); for (int x : held) mc::hash_combine(h, x); mc::checkpoint(h);
        auto take = [&](auto f, std::set<int>& to, const char* who) {
            try { int k = int(f()); MC_CHECK(k != 0 && k != 0xFF && !live.count(k) && !held.count(k), "cookie-in-use", who, " gave ", k); if (returned) --returned; else MC_CHECK(!exhausted, "exhausted", who, " gave the new cookie ", k); if (k == 0xFE && !returned) exhausted = true; to.insert(k); }
            catch (neolib::cookies_exhausted const&) { MC_CHECK(exhausted && !returned, "exhausted", who); } };
        switch (choose(4)) {
            case 0: MC_TRACE("insert"); take([&] { elem e(3); return a->insert(e); }, live, "insert"); break;
            case 1: MC_TRACE("next_cookie"); if (held.size() > 1) throw mc::prune{}; take([&] { return a->next_cookie(); }, held, "next_cookie"); break;
            case 2: { if (live.empty()) throw mc::prune{}; int k = *std::next(live.begin(), choose(live.size())); MC_TRACE("remove ", k); a->remove(C(k)); live.erase(k); ++returned; break; }
            case 3: { if (held.empty()) throw mc::prune{}; int k = *std::next(held.begin(), choose(held.size())); held.erase(k); if (choose(2)) { MC_TRACE("add ", k); a->add(C(k), 4); live.insert(k); } else { MC_TRACE("return ", k); a->return_cookie(C(k)); ++returned; } break; }
        }
        MC_CHECK(a->size() == live.size(), "size", ""); for (int i = 0; i < 256; ++i) MC_CHECK(a->contains(C(i)) == (live.count(i) != 0), "contains", i);
        mc::validated();
    }
}
MC_STATESPACE("exhaustion/jar", 6, 12) { exhaustion<neolib::basic_jar<elem, neolib::vector<elem>, tiny>>(); }
MC_STATESPACE("exhaustion/std_vector_jar", 6, 12) { exhaustion<neolib::basic_std_vector_jar<elem, std::uint8_t>>(); }

// Counted cookie pointers: the consumer's count of a cookie equals the number of pointers holding it.
namespace
{
    struct consumer : neolib::i_basic_cookie_consumer<neolib::cookie>
    {
        std::map<neolib::cookie, long> count;
        void add_ref(neolib::cookie c, long n) override { count[c] += n; }
        void release(neolib::cookie c, long n) override { if (count[c] < n) throw invalid_release(); count[c] -= n; }
        long use_count(neolib::cookie c) const override { auto i = count.find(c); return i == count.end() ? 0 : i->second; }
    };
}
MC_STATESPACE("cookie_ref_ptr", 6, 12)
{
    using P = neolib::cookie_ref_ptr; constexpr int N = 3; consumer c[2]; mc::holder<std::optional<P>> p[N]; std::pair<int, int> m[N]; bool there[N] = {};
    auto check = [&] { for (int k = 0; k < 2; ++k) for (int i = 1; i <= 2; ++i) { long want = 0; for (int j = 0; j < N; ++j) want += there[j] && m[j] == std::pair{ k, i }; MC_CHECK(c[k].use_count(i) == want, "use_count", "consumer ", k, " cookie ", i, ": ", c[k].use_count(i), " expected ", want); }
        for (int j = 0; j < N; ++j) if (there[j]) { bool valid = m[j].second != 0; MC_CHECK((*p[j])->valid() == valid && (*p[j])->expired() == !valid, "valid", j); MC_CHECK((*p[j])->cookie() == neolib::cookie(m[j].second), "cookie", j);
            for (int i = 0; i < N; ++i) if (there[i]) MC_CHECK((**p[i] == **p[j]) == (m[i] == m[j]), "equality", i, j); } };
    std::pair<int, int> const none{ -1, 0 };
    for (;;)
    {
        std::uint64_t h = 1; for (int j = 0; j < N; ++j) { mc::hash_combine(h, there[j]); mc::hash_combine(h, m[j].first); mc::hash_combine(h, m[j].second); } for (auto& x : c) for (auto& e : x.count) mc::hash_combine(h, e.second); mc::checkpoint(h);
        int i = choose(N), j = choose(N);
        switch (choose(8)) {
            case 0: { if (j || there[i]) throw mc::prune{}; MC_TRACE(i, " = none"); p[i]->emplace(); m[i] = none; there[i] = true; break; }
            case 1: { if (j || there[i]) throw mc::prune{}; int k = choose(2), n = 1 + choose(2); MC_TRACE(i, " = consumer ", k, " cookie ", n); p[i]->emplace(c[k], neolib::cookie(n)); m[i] = { k, n }; there[i] = true; break; }
            case 2: { if (i == j || there[i] || !there[j]) throw mc::prune{}; MC_TRACE(i, " copy of ", j); p[i]->emplace(**p[j]); m[i] = m[j]; there[i] = true; break; }
            case 3: { if (i == j || there[i] || !there[j]) throw mc::prune{}; MC_TRACE(i, " moved from ", j); p[i]->emplace(std::move(**p[j])); m[i] = m[j]; m[j] = none; there[i] = true; break; }
            case 4: { if (!there[i] || !there[j]) throw mc::prune{}; MC_TRACE(i, " assigned ", j); P& q = **p[j]; **p[i] = q; m[i] = m[j]; break; }
            case 5: { if (!there[i] || !there[j]) throw mc::prune{}; MC_TRACE(i, " move-assigned ", j); P& q = **p[j]; **p[i] = std::move(q); if (i != j) { m[i] = m[j]; m[j] = none; } break; }
            case 6: { if (j || !there[i]) throw mc::prune{}; MC_TRACE("reset ", i); (*p[i])->reset(); m[i] = none; break; }
            case 7: { if (j || !there[i]) throw mc::prune{}; MC_TRACE("destroy ", i); p[i]->reset(); there[i] = false; break; }
        }
        check(); mc::validated();
    }
}
