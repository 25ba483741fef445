// @props E01 E02
// @engine conc
// @src src/task/event.cpp src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp
// Events shared between threads: concurrent triggers, subscription changes, queueing and pumping.
#include <neolib/task/event.hpp>
#include "conc.hpp"
#include <memory>
using namespace neolib;
static bool sServices = (services::allocate_service_provider(), services::service<i_event_system>(), true);
static void spin(std::function<bool()> c) { while (!c()) std::this_thread::yield(); }
static async_event_queue& queue() { return async_event_queue::instance(); }

// ---- E01
MC_CONC("E01/two_triggers", 3, 4)
{   // each thread's trigger delivers to every slot until that very delivery is accepted
    event<int> e; int n[2][3] = {}; sink s;
    for (int i = 0; i < 3; ++i) s += ~e([&, i](int t) { ++n[t][i]; if (t == 0 && i == 1) e.accept(); });
    trigger_result r1; std::thread o{ [&] { r1 = e.trigger(1); } }; auto r0 = e.trigger(0); o.join();
    MC_CHECK(n[0][0] == 1 && n[0][1] == 1 && n[0][2] == 0 && r0 == trigger_result::Accepted, "deliveries", "accepted trigger delivered ", n[0][0], n[0][1], n[0][2], " result ", int(r0));
    MC_CHECK(n[1][0] == 1 && n[1][1] == 1 && n[1][2] == 1 && r1 == trigger_result::Unaccepted, "deliveries", "trigger delivered ", n[1][0], n[1][1], n[1][2], " result ", int(r1)); mc::validated();
}
MC_CONC("E01/unsubscribe_vs_trigger", 3, 5)
{
    event<int> e; std::atomic<int> n{ 0 }, m{ 0 }; sink s, t; s = ~e([&](int) { ++n; }); t = ~e([&](int) { ++m; });
    std::thread o{ [&] { s.clear(); } }; e.trigger(1); o.join(); MC_CHECK(n <= 1 && m == 1, "deliveries", n.load(), " ", m.load()); int k = n; e.trigger(1); MC_CHECK(n == k && m == 2, "unsubscribed-called", n.load(), " ", m.load()); mc::validated();
}
MC_CONC("E01/subscribe_vs_trigger", 3, 5)
{
    event<int> e; std::atomic<int> n{ 0 }, m{ 0 }; sink s, t; std::atomic<bool> ended{ false }; t = ~e([&](int) { ++m; });
    std::thread o{ [&] { queue(); s = ~e([&](int) { ++n; }); spin([&] { return ended.load(); }); } }; e.trigger(1); ended = true; o.join(); MC_CHECK(n <= 1 && m == 1, "deliveries", n.load(), " ", m.load()); int k = n; e.trigger(1); MC_CHECK(n == k + 1 && m == 2, "deliveries", n.load(), " ", m.load()); mc::validated();
}
MC_CONC("E01/two_subscribers", 3, 5)
{
    event<int> e; std::atomic<int> n{ 0 }; sink s, t; std::thread o{ [&] { s = ~e([&](int) { ++n; }); } }; t = ~e([&](int) { ++n; }); o.join(); e.trigger(1); MC_CHECK(n == 2, "deliveries", n.load()); t.clear(); std::thread q{ [&] { s.clear(); } }; e.trigger(1); q.join(); e.trigger(1); MC_CHECK(n <= 3, "deliveries", ""); mc::validated();
}
// ---- E02
static void pump_until(std::function<bool()> c) { while (!c()) { queue().pump_events(); std::this_thread::yield(); } }
MC_CONC("E02/other_thread", 3, 4)
{   // triggered elsewhere, delivered here, in order, with the arguments
    queue(); event<int> e; std::vector<int> got; auto me = std::this_thread::get_id(); bool wrong = false; sink s = e([&](int v) { got.push_back(v); wrong |= std::this_thread::get_id() != me; });
    std::thread o{ [&] { for (int i = 1; i <= 3; ++i) { auto r = e.trigger(i); MC_CHECK(r == trigger_result::Unaccepted, "result", ""); } } };
    pump_until([&] { return got.size() >= 3; }); o.join(); bool more = queue().pump_events();
    MC_CHECK(!more && !wrong && (got == std::vector<int>{ 1, 2, 3 }), "deliveries", mc::show(got), wrong ? " on the wrong thread" : ""); mc::validated();
}
MC_CONC("E02/two_emitters", 2, 3)
{
    queue(); event<int> e; std::vector<int> got; sink s = e([&](int v) { got.push_back(v); });
    std::thread o{ [&] { e.trigger(1); e.trigger(2); } }, q{ [&] { e.async_trigger(11); e.async_trigger(12); } };
    pump_until([&] { return got.size() >= 4; }); o.join(); q.join(); bool more = queue().pump_events(); std::vector<int> a, b; for (auto v : got) (v < 10 ? a : b).push_back(v);
    MC_CHECK(!more && (a == std::vector<int>{ 1, 2 }) && (b == std::vector<int>{ 11, 12 }), "deliveries", mc::show(got)); mc::validated();
}
MC_CONC("E02/two_subscribers", 2, 3)
{   // one subscriber here, one on another thread, one in the emitter's thread
    queue(); event<int> e; std::vector<int> here, there; std::atomic<int> emitter{ 0 }; sink s, t, u; std::atomic<int> ready{ 0 }; s = e([&](int v) { here.push_back(v); }); u = ~e([&](int) { ++emitter; });
    std::thread o{ [&] { t = e([&](int v) { there.push_back(v); }); queue(); ready = 1; pump_until([&] { return there.size() >= 2; }); MC_CHECK(!queue().pump_events(), "deliveries", ""); } };
    spin([&] { return ready == 1; }); e.async_trigger(1); e.trigger(2); int n = int(here.size()); pump_until([&] { return here.size() >= 2; }); o.join(); bool more = queue().pump_events(); t.clear();
    MC_CHECK(!more && n == 1 && (here == std::vector<int>{ 2, 1 }) && (there == std::vector<int>{ 1, 2 }), "deliveries", mc::show(here), mc::show(there), n, emitter.load()); mc::validated();
}
MC_CONC("E02/no_duplicates", 3, 4)
{
    queue(); event<int> e; e.set_trigger_type(mc::choose(2) ? trigger_type::AsynchronousDontQueue : trigger_type::SynchronousDontQueue); std::vector<int> got; sink s = e([&](int v) { got.push_back(v); }); std::atomic<bool> done{ false };
    std::thread o{ [&] { e.trigger(1); e.trigger(2); done = true; } }; pump_until([&] { return done.load(); }); o.join(); queue().pump_events();
    MC_CHECK(got.size() <= 2 && !got.empty() && got.back() == 2 && (got.size() == 1 || got[0] == 1), "collapsed", mc::show(got)); mc::validated();
}
MC_CONC("E02/unsubscribe_vs_trigger", 3, 5)
{   // the subscription ends on its own thread while the event is triggered elsewhere: nothing is delivered afterwards
    queue(); event<int> e; auto gone = std::make_unique<int>(7); int n = 0; sink s = e([&, p = gone.get()](int) { n += *p; });
    std::thread o{ [&] { e.trigger(1); } }; queue().pump_events(); s.clear(); gone.reset(); queue().pump_events(); o.join(); queue().pump_events(); MC_CHECK(n == 0 || n == 7, "deliveries", n); mc::validated();
}
MC_CONC("E02/destroy_event_after", 3, 5)
{   // an event destroyed by its owner before the subscriber pumps
    queue(); auto e = std::make_unique<event<int>>(); int n = 0; sink s = (*e)([&](int) { ++n; }); std::thread o{ [&] { e->trigger(1); e.reset(); } }; o.join(); queue().pump_events(); MC_CHECK(n == 0, "from-destroyed-event", n); mc::validated();
}
MC_CONC("E02/thread_start_end", 2, 4)
{   // queues come and go with their threads while others look theirs up
    queue(); event<int> e; int n = 0; sink s = e([&](int) { ++n; });
    std::thread o{ [&] { queue(); e.trigger(1); } }, q{ [&] { queue(); event<int> f; int m = 0; sink t = f([&](int) { ++m; }); f.async_trigger(1); queue().pump_events(); MC_CHECK(m == 1, "deliveries", m); } };
    o.join(); q.join(); queue().pump_events(); MC_CHECK(n == 1, "deliveries", n); mc::validated();
}
