// @props E02
// @src src/task/event.cpp src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp
// The queue of asynchronous events of one thread: every sequence of triggers, pumps, subscription changes, destructions and
// trigger types, with every handler program (trigger, nested pump, unsubscribe, destroy, throw), against a reference queue.
#include <neolib/task/event.hpp>
#include "mc.hpp"
#include <memory>
#include <map>
#include <set>
#include <deque>
using namespace neolib;
static bool sServices = (services::allocate_service_provider(), true);
static async_event_queue& queue() { return async_event_queue::instance(); }

namespace
{
    enum act { NONE, TRIGGER, PUMP, TRIGGER_PUMP, UNSUB_SELF, UNSUB_NEXT, DESTROY, THROW, ACTS };
    const char* names[] = { "nothing", "trigger 0", "pump", "trigger 0 and pump", "unsubscribe itself", "unsubscribe the other", "destroy its event", "throw" };
    struct boom {};
    constexpr int EV = 2, SLOTS = 3; // slots 0, 1 on event 0; slot 2 on event 1
    struct flat_entry { int ev, gen, slot, sub, arg; bool single; };
    struct rig
    {
        // real
        std::unique_ptr<event<int>> e[EV]; sink s[SLOTS];
        // reference
        int gen[EV] = {}, sub[SLOTS] = {}, subGen[SLOTS] = {}; bool alive[EV] = {}, subscribed[SLOTS] = {}, dont[EV] = {}, stateless[SLOTS] = {}; bool async[EV] = {};
        std::deque<flat_entry> work, multiple; std::vector<flat_entry> single; int arg = 0, nextSub = 0, calls = 0, depth = 0; bool delivered = false;
        std::map<int, int> program; int acts; bool anyThrown = false;
        rig(int acts) : acts(acts) {}
        static int ev_of(int slot) { return slot == 2 ? 1 : 0; }
        void create(int v) { e[v] = std::make_unique<event<int>>(); alive[v] = true; ++gen[v]; dont[v] = async[v] = false; for (int i = 0; i < SLOTS; ++i) if (ev_of(i) == v && subscribed[i]) subscribed[i] = false; }
        void type(int v, trigger_type t) { e[v]->set_trigger_type(t); async[v] = t == trigger_type::Asynchronous || t == trigger_type::AsynchronousDontQueue; dont[v] = t == trigger_type::AsynchronousDontQueue; }
        void destroy(int v) { e[v].reset(); alive[v] = false; }
        void subscribe(int i, bool sl)
        {
            int id = ++nextSub; auto p = (*e[ev_of(i)])([this, i, id](int a) { call(i, id, a); }); if (sl) s[i] = !std::move(p); else s[i] = std::move(p);
            subscribed[i] = true; sub[i] = id; subGen[i] = gen[ev_of(i)]; stateless[i] = sl;
        }
        void unsubscribe(int i) { s[i].clear(); subscribed[i] = false; }
        std::vector<int> order[EV];     // subscription ids in subscription order
        bool live(flat_entry const& f) const { return alive[f.ev] && gen[f.ev] == f.gen && subscribed[f.slot] && sub[f.slot] == f.sub; }
        void trigger(int v, bool forceAsync)
        {
            int a = ++arg;
            std::vector<int> targets; for (int i = 0; i < SLOTS; ++i) if (ev_of(i) == v && subscribed[i] && subGen[i] == gen[v]) targets.push_back(i);
            std::sort(targets.begin(), targets.end(), [&](int x, int y) { return sub[x] < sub[y]; });
            for (int i : targets)
            {
                flat_entry f{ v, gen[v], i, sub[i], a, dont[v] || stateless[i] };
                if (!f.single) multiple.push_back(f);
                else { auto it = std::find_if(single.begin(), single.end(), [&](auto& x) { return x.sub == f.sub; }); if (it != single.end()) it->arg = a; else single.push_back(f); }
            }
            if (forceAsync) e[v]->async_trigger(a); else { auto r = e[v]->trigger(a); MC_CHECK(r == trigger_result::Unknown, "result", int(r)); }
        }
        void call(int slot, int id, int a)
        {   // a delivery: the reference queue must be ready for exactly this one
            ++calls; MC_TRACE("  delivered to slot ", slot, " #", id, ": ", a); mc::op();
            while (!work.empty() && !live(work.front())) work.pop_front();
            MC_CHECK(!work.empty(), "unexpected-delivery", "slot ", slot, " argument ", a);
            auto f = work.front();
            if (f.single)
            {   // the order among collapsed deliveries of one pump is unspecified
                auto it = std::find_if(work.begin(), work.end(), [&](auto& x) { return x.single && x.sub == id; }); MC_CHECK(it != work.end(), "wrong-delivery", "slot ", slot, " argument ", a); f = *it; work.erase(it);
            }
            else work.pop_front();
            MC_CHECK(f.slot == slot && f.sub == id && f.arg == a, "wrong-delivery", "slot ", slot, " #", id, " got ", a, ", expected slot ", f.slot, " #", f.sub, " ", f.arg);
            delivered = true;
            if (program.count(id)) return; int act = int(mc::choose(acts)); program[id] = act; MC_TRACE("  handler does: ", names[act]);
            switch (act)
            {
            case NONE: break; case TRIGGER: if (alive[0]) trigger(0, true); break; case PUMP: if (depth < 3) pump(); break; case TRIGGER_PUMP: if (alive[0]) trigger(0, true); if (depth < 3) pump(); break;
            case UNSUB_SELF: unsubscribe(slot); break; case UNSUB_NEXT: unsubscribe(slot == 0 ? 1 : 0); break; case DESTROY: destroy(ev_of(slot)); break; case THROW: throw boom{};
            }
        }
        void pump()
        {
            for (auto& f : multiple) work.push_back(f); multiple.clear(); for (auto& f : single) work.push_back(f); single.clear();
            ++depth; bool was = delivered; delivered = false; bool thrown = false; bool did = false;
            try { did = queue().pump_events(); } catch (boom const&) { thrown = true; }
            --depth; bool here = delivered; delivered = was || here; if (thrown) { MC_TRACE("  the handler's exception came out"); return; }
            while (!work.empty() && !live(work.front())) work.pop_front();
            MC_CHECK(work.empty(), "undelivered", work.size(), " deliveries missing, first: slot ", work.front().slot, " ", work.front().arg);
            MC_CHECK(did == here, "pump-result", "pump reported ", did, ", delivered ", here);
        }
    };
    void run(int depth, int acts)
    {
        rig r{ acts }; r.create(0); r.create(1); bool mix = mc::choose(2); r.subscribe(0, false); r.subscribe(1, mix); r.subscribe(2, false);
        if (mix) { r.type(1, trigger_type::AsynchronousDontQueue); } MC_TRACE(mix ? "slot 1 stateless, event 1 does not queue duplicates" : "plain slots");
        for (int i = 0; i < depth; ++i)
        {
            auto o = mc::choose(10); mc::op();
            switch (o)
            {
            case 0: if (!r.alive[0]) throw mc::prune{}; MC_TRACE("trigger 0"); r.trigger(0, true); break;
            case 1: if (!r.alive[1]) throw mc::prune{}; MC_TRACE("trigger 1"); r.trigger(1, !r.async[1]); break;
            case 2: if (r.multiple.empty() && r.single.empty() && r.work.empty()) throw mc::prune{}; MC_TRACE("pump"); r.pump(); break;
            case 3: if (!r.subscribed[0]) throw mc::prune{}; MC_TRACE("unsubscribe 0"); r.unsubscribe(0); break;
            case 4: if (!r.subscribed[1]) throw mc::prune{}; MC_TRACE("unsubscribe 1"); r.unsubscribe(1); break;
            case 5: if (!r.alive[0]) throw mc::prune{}; MC_TRACE("destroy 0"); r.destroy(0); break;
            case 6: if (r.alive[0]) throw mc::prune{}; MC_TRACE("create 0"); r.create(0); r.s[0].clear(); r.s[1].clear(); r.subscribe(0, false); break;
            case 7: if (!r.alive[0] || r.subscribed[1]) throw mc::prune{}; MC_TRACE("subscribe 1"); r.subscribe(1, mix); break;
            case 8: if (!r.alive[1]) throw mc::prune{}; MC_TRACE("toggle type of 1"); r.type(1, r.dont[1] ? trigger_type::Asynchronous : trigger_type::AsynchronousDontQueue); break;
            case 9: if (r.alive[1] == false) throw mc::prune{}; MC_TRACE("destroy 1"); r.destroy(1); break;
            }
        }
        MC_TRACE("final pumps"); for (int i = 0; i < 8; ++i) { r.pump(); if (r.multiple.empty() && r.single.empty() && r.work.empty()) break; }
        bool more = queue().pump_events(); MC_CHECK(!more, "left-over", "");
        mc::validated();
    }
}
MC_SCENARIO("sequences") { run(mc::tier(5, 7), ACTS); }
MC_SCENARIO("plain_sequences") { run(mc::tier(7, 9), 1); }
MC_SCENARIO("reactive") 
{   // several pending deliveries whose handlers do anything
    rig r{ ACTS }; r.create(0); r.create(1); bool mix = mc::choose(2); r.subscribe(0, false); r.subscribe(1, mix); r.subscribe(2, mc::choose(2));
    int n = mc::tier(3, 4); for (int i = 0; i < n; ++i) r.trigger(int(mc::choose(2)), true);
    for (int i = 0; i < 8; ++i) { MC_TRACE("pump"); r.pump(); if (r.multiple.empty() && r.single.empty() && r.work.empty()) break; }
    bool more = queue().pump_events(); MC_CHECK(!more, "left-over", ""); mc::validated();
}
// Argument kinds survive until delivery, whatever happens to the originals.
MC_SCENARIO("arguments")
{
    struct pod { int a; double b; }; event<std::string, pod, std::shared_ptr<int>> e; std::vector<std::string> got; sink s = e([&](std::string a, pod p, std::shared_ptr<int> q) { got.push_back(mc::str(a, " ", p.a, " ", p.b, " ", *q)); });
    int n = int(mc::choose(4)); std::vector<std::string> want; std::weak_ptr<int> w;
    for (int i = 0; i < n; ++i) { std::string a(std::size_t(i) * 20, 'x'); auto q = std::make_shared<int>(i); w = q; e.async_trigger(a, pod{ i, i * 0.5 }, q); want.push_back(mc::str(a, " ", i, " ", i * 0.5, " ", i)); }
    bool gone = mc::choose(2); if (gone) { s.clear(); want.clear(); } queue().pump_events(); MC_CHECK(got == want && w.expired(), "arguments", mc::show(got), " expected ", mc::show(want)); mc::validated();
}
