// @props E01
// @src src/task/event.cpp src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp
// Synchronous events: every handler program (accept, unsubscribe, subscribe, re-trigger, destroy, throw, copy) over up to
// three subscribers with nested triggers, against a reference event.
#include <neolib/task/event.hpp>
#include "mc.hpp"
#include <memory>
#include <deque>
#include <map>
#include <set>
using namespace neolib;
static bool sServices = (services::allocate_service_provider(), true);

namespace
{
    enum act { NONE, ACCEPT, REMOVE_SELF, REMOVE_0, REMOVE_2, ADD, ADD_PRIORITY, TRIGGER, ACCEPT_TRIGGER, TRIGGER_ACCEPT, DESTROY, ACCEPT_DESTROY, THROW, ACCEPT_THROW, TRIGGER_OTHER, ACCEPT_OTHER, TRIGGER_DESTROY, ACTS };
    const char* names[] = { "none", "accept", "remove self", "remove 0", "remove 2", "add", "add priority", "trigger", "accept,trigger", "trigger,accept", "destroy event", "accept,destroy event", "throw", "accept,throw", "trigger other", "accept other", "trigger,destroy" };
    struct token { static inline int live = 0; token() { ++live; } token(token const&) { ++live; } ~token() { --live; } };
    struct program { std::map<int, int> action; };
    struct boom {};

    // reference event
    struct model
    {
        struct ev { std::vector<int> slots; bool dead = false; std::vector<bool*> accepted; int id; };
        std::shared_ptr<ev> e[2]; std::vector<std::string> log; program const& prog; int next = 10; int depth = 0, maxDepth; std::set<int> used; std::set<int> priority;
        model(program const& p, int md) : prog(p), maxDepth(md) { for (int i : { 0, 1 }) { e[i] = std::make_shared<ev>(); e[i]->id = i; } }
        void add(int w, int s, bool pr) { if (e[w]->dead) return; if (pr) e[w]->slots.insert(e[w]->slots.begin(), s); else e[w]->slots.push_back(s); }
        void remove(int s) { for (auto& x : e) x->slots.erase(std::remove(x->slots.begin(), x->slots.end(), s), x->slots.end()); }
        int trigger(int w, int arg)
        {
            auto x = e[w]; if (x->dead) return 3;
            log.push_back(mc::str("trigger ", w));
            bool acc = false; x->accepted.push_back(&acc); auto snap = x->slots; ++depth;
            struct out { model& m; ev& x; ~out() { --m.depth; x.accepted.pop_back(); } } o{ *this, *x };
            for (int s : snap) { call(s, w, arg); if (x->dead) return 2; if (acc) return 1; }
            return 0;
        }
        void accept(int w) { if (!e[w]->dead && !e[w]->accepted.empty()) *e[w]->accepted.back() = true; }
        void result(int w, int r) { log.push_back(mc::str("result ", w, " ", r)); }
        void call(int s, int w, int arg)
        {
            log.push_back(mc::str("call ", s, " ", arg)); if (!used.insert(s).second) return;
            auto it = prog.action.find(s); if (it == prog.action.end()) return;
            auto trig = [&](int v) { if (depth < maxDepth) result(v, trigger(v, arg + 1)); };
            switch (it->second)
            {
            case NONE: break; case ACCEPT: accept(w); break; case REMOVE_SELF: remove(s); break; case REMOVE_0: remove(0); break; case REMOVE_2: remove(2); break;
            case ADD: add(w, next++, false); break; case ADD_PRIORITY: add(w, next++, true); break;
            case TRIGGER: trig(w); break; case ACCEPT_TRIGGER: accept(w); trig(w); break; case TRIGGER_ACCEPT: trig(w); accept(w); break;
            case DESTROY: e[w]->dead = true; break; case ACCEPT_DESTROY: accept(w); e[w]->dead = true; break;
            case THROW: throw boom{}; case ACCEPT_THROW: accept(w); throw boom{};
            case TRIGGER_OTHER: trig(1 - w); break; case ACCEPT_OTHER: accept(1 - w); break;
            case TRIGGER_DESTROY: trig(w); e[w]->dead = true; break;
            }
        }
    };
    struct world
    {
        std::unique_ptr<event<int>> e[2]; std::deque<sink> sinks; std::map<int, sink*> sinkOf; std::vector<std::string> log; program prog; int next = 10, depth = 0, maxDepth; std::set<int> used; int acts;
        world(int md, int acts) : maxDepth(md), acts(acts) { for (auto& x : e) x = std::make_unique<event<int>>(); }
        void add(int w, int s, bool pr) { if (!e[w]) return; token t; sinks.emplace_back(); sinkOf[s] = &sinks.back(); sinks.back() = (*e[w])(std::function<void(int)>([this, s, w, t](int arg) { call(s, w, arg); }), pr); }
        void remove(int s) { if (sinkOf.count(s)) sinkOf[s]->clear(); }
        int trigger(int w, int arg)
        {
            if (!e[w]) return 3; log.push_back(mc::str("trigger ", w)); event<int>* was = e[w].get(); ++depth; struct out { int& d; ~out() { --d; } } o{ depth };
            auto r = (*e[w])(arg); if (e[w].get() != was) return 2; return r == trigger_result::Accepted ? 1 : r == trigger_result::Unaccepted ? 0 : 9;
        }
        void result(int w, int r) { log.push_back(mc::str("result ", w, " ", r)); }
        void accept(int w) { if (e[w]) e[w]->accept(); }
        void call(int s, int w, int arg)
        {
            log.push_back(mc::str("call ", s, " ", arg)); if (!used.insert(s).second) return;
            int a = s >= 10 ? NONE : int(mc::choose(acts)); prog.action[s] = a; MC_TRACE("slot ", s, ": ", names[a]); mc::op();
            auto trig = [&](int v) { if (depth < maxDepth) result(v, trigger(v, arg + 1)); };
            switch (a)
            {
            case NONE: break; case ACCEPT: accept(w); break; case REMOVE_SELF: remove(s); break; case REMOVE_0: remove(0); break; case REMOVE_2: remove(2); break;
            case ADD: add(w, next++, false); break; case ADD_PRIORITY: add(w, next++, true); break;
            case TRIGGER: trig(w); break; case ACCEPT_TRIGGER: accept(w); trig(w); break; case TRIGGER_ACCEPT: trig(w); accept(w); break;
            case DESTROY: e[w].reset(); break; case ACCEPT_DESTROY: accept(w); e[w].reset(); break;
            case THROW: throw boom{}; case ACCEPT_THROW: accept(w); throw boom{};
            case TRIGGER_OTHER: trig(1 - w); break; case ACCEPT_OTHER: accept(1 - w); break;
            case TRIGGER_DESTROY: trig(w); e[w].reset(); break;
            }
        }
    };
    void run(int slots, int maxDepth, int acts, bool withOther)
    {
        std::vector<bool> pr; for (int i = 0; i < slots; ++i) pr.push_back(mc::choose(2));
        std::string prs; for (auto b : pr) prs += b ? "P" : "n"; MC_TRACE("slots ", prs);
        std::vector<std::string> expected, got; program prog;
        {
            world r{ maxDepth, acts }; for (int i = 0; i < slots; ++i) r.add(0, i, pr[i]); r.add(1, 20, false); r.add(1, 21, false);
            auto drive = [&](auto& x) { for (int w : { 0, 1, 0 }) try { x.result(w, x.trigger(w, 100 * w)); } catch (boom const&) { x.log.push_back("thrown"); } };
            drive(r); if (r.e[0]) MC_CHECK(r.e[0]->has_slots() == !!std::count_if(r.sinkOf.begin(), r.sinkOf.end(), [&](auto& p) { return p.first < 20 && !p.second->empty(); }), "has-slots", "");
            got = r.log; prog = r.prog;
            model m{ prog, maxDepth }; for (int i = 0; i < slots; ++i) m.add(0, i, pr[i]); m.add(1, 20, false); m.add(1, 21, false); drive(m); expected = m.log;
            for (auto& l : got) MC_TRACE(l);
            MC_CHECK(got == expected, "deliveries", "deliveries ", mc::show(got), " expected ", mc::show(expected));
        }
        MC_CHECK(token::live == 0, "handler-leak", token::live, " handlers of cleared subscriptions of destroyed events are still held"); token::live = 0;
        mc::validated();
    }
}
MC_SCENARIO("two_slots") { run(2, 3, ACTS, false); }
MC_SCENARIO("three_slots") { run(3, 3, ACTS, true); }
MC_SCENARIO("four_slots_basic") { run(4, 2, mc::tier(TRIGGER_ACCEPT, ACTS), false); }
// Trigger types, priorities and subscription order, without handler actions.
MC_SCENARIO("order")
{
    int n = int(mc::choose(6)); event<int, std::string> e; std::vector<int> expect, got; sink s; auto type = mc::choose(2); if (type) e.set_trigger_type(trigger_type::SynchronousDontQueue);
    MC_CHECK(e.trigger_type() == (type ? trigger_type::SynchronousDontQueue : trigger_type::Synchronous), "trigger-type", "");
    for (int i = 0; i < n; ++i) { bool pr = mc::choose(2), emitter = mc::choose(2); if (pr) expect.insert(expect.begin(), i); else expect.push_back(i); auto p = e([&, i](int a, std::string const& b) { MC_CHECK(a == 5 && b == "x", "arguments", ""); got.push_back(i); }, pr); if (emitter) s += ~std::move(p); else s += std::move(p); }
    MC_CHECK(e.has_slots() == (n > 0), "has-slots", ""); auto r = mc::choose(2) ? e.trigger(5, "x") : e.sync_trigger(5, "x"); MC_CHECK(r == trigger_result::Unaccepted && !event_consumed(r) && event_consumed(trigger_result::Accepted), "result", "");
    MC_CHECK(got == expect, "deliveries", mc::show(got), " expected ", mc::show(expect)); got.clear(); s.clear(); e.trigger(5, "x"); MC_CHECK(got.empty() && !e.has_slots() && s.empty(), "unsubscribed-called", ""); mc::validated();
}
// Copies and assignments of events and sinks.
MC_SCENARIO("copies")
{
    int n = 0; event<int> a; sink s = a([&](int v) { n += v; });
    switch (mc::choose(8))
    {
    case 0: { event<int> b{ a }; b.trigger(1); MC_CHECK(n == 0 && !b.has_slots(), "copied-event", ""); a.trigger(1); MC_CHECK(n == 1, "copied-event", ""); break; }
    case 1: { event<int> b; sink t = b([&](int v) { n += 10 * v; }); b = a; b.trigger(1); MC_CHECK(n == 0 && !b.has_slots(), "assigned-event", ""); a.trigger(1); MC_CHECK(n == 1, "assigned-event", ""); break; }
    case 2: { s = a([&](int v) { n += 100 * v; }); a.trigger(1); MC_CHECK(n == 100, "replaced-sink", n); break; }
    case 3: { s += a([&](int v) { n += 100 * v; }); a.trigger(1); MC_CHECK(n == 101, "appended-sink", n); s.clear(); a.trigger(1); MC_CHECK(n == 101 && s.empty(), "cleared-sink", n); break; }
    case 4: { a([&](int v) { n += 100 * v; }); a.trigger(1); MC_CHECK(n == 101, "sinkless", n); break; }
    case 5: { event<int>* p = new event<int>; sink t = (*p)([&](int) { ++n; }); delete p; t.clear(); MC_CHECK(n == 0, "", ""); break; }
    case 6: { { sink t = a([&](int v) { n += 10 * v; }); a.trigger(1); } a.trigger(1); MC_CHECK(n == 12, "scoped-sink", n); break; }
    case 7: { sink t; t = s; a.trigger(1); MC_CHECK(n == 1, "copied-sink", n); break; }
    }
    mc::validated();
}
// The end of an event that still has subscriptions, kept by sinks or by the event alone, in any order of going away.
MC_SCENARIO("destruction")
{
    long before = mc::elem::live; int n = int(mc::choose(mc::tier(5, 6))); { auto e = std::make_unique<event<int>>(); std::unique_ptr<sink> s[6]; int calls = 0; int expect = 0;
    for (int i = 0; i < n; ++i) { auto how = mc::choose(3); mc::elem x{ i }; if (how == 0) (*e)([&calls, x](int) { calls += 1 + x.get() * 0; }); else { s[i] = std::make_unique<sink>(); *s[i] += (*e)([&calls, x](int) { calls += 1 + x.get() * 0; }, how == 2); } ++expect; }
    e->trigger(1); MC_CHECK(calls == expect, "deliveries", calls);
    auto order = mc::choose(3); if (order == 0) e.reset(); else if (order == 1) { for (int i = 0; i < n; i += 2) s[i].reset(); e.reset(); } else { event<int> other; *e = other; MC_CHECK(!e->has_slots(), "assigned-event", ""); e->trigger(1); MC_CHECK(calls == expect, "assigned-event", calls); } }
    MC_CHECK(mc::elem::live == before, "leak", "subscriptions outlive the event and every sink: ", mc::elem::live - before); mc::validated();
}
