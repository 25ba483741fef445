// @props T06
// @engine conc
// @src src/task/thread.cpp src/task/waitable_event.cpp
// @link -lboost_chrono
// Life cycle of neolib::thread: start, wait, abort, cancel, block and destruction in every order and interleaving.
#include <neolib/task/thread.hpp>
#include "conc.hpp"
#include <iostream>
using neolib::thread; using neolib::thread_state;

struct quiet_cerr { quiet_cerr() { std::cerr.setstate(std::ios_base::failbit); } } sQuiet;

// What the thread's function did: plain members, so that every unordered access is reported as a race.
struct work { int begun = 0, ended = 0; void run() { ++begun; conc::step(1); ++ended; } };
template <typename E, typename F> static bool throws(F f) { try { f(); return false; } catch (E const&) { return true; } }
static void spin(std::function<bool()> c) { while (!c()) std::this_thread::yield(); }

MC_CONC("run_once", 5, 8)
{
    work w; thread t{ [&] { w.run(); }, "name" };
    MC_CHECK(t.name() == "name" && !t.started() && !t.finished() && !t.running() && t.state() == thread_state::ReadyToStart && !t.has_thread_object(), "initial-state", "");
    MC_CHECK(throws<thread::thread_not_started>([&] { t.wait(); }), "wait-before-start", "wait before start is accepted");
    MC_CHECK(throws<thread::thread_not_started>([&] { t.in(); }), "in-before-start", "");
    t.start();
    MC_CHECK(t.started(), "started", "");
    MC_CHECK(throws<thread::thread_already_started>([&] { t.start(); }), "start-twice", "a second start is accepted");
    t.wait();
    MC_CHECK(w.begun == 1 && w.ended == 1, "run-once", "function ran ", w.begun, " times");
    MC_CHECK(t.finished() && t.state() == thread_state::Finished && !t.running(), "finished", "state ", int(t.state()));
    MC_CHECK(throws<thread::thread_already_started>([&] { t.start(); }), "start-twice", "a finished thread can be started again");
    t.wait(); t.abort(); t.cancel(); MC_CHECK(t.state() == thread_state::Finished && w.begun == 1, "finished", "");
    mc::validated();
}
MC_CONC("id", 4, 6)
{
    std::thread::id inside; bool in = false, self = false; thread* p = nullptr; work w;
    thread t{ [&] { inside = std::this_thread::get_id(); in = p->in(); self = throws<thread::cannot_wait_on_self>([&] { p->wait(); }); w.run(); } };
    p = &t; t.start(); bool outside = t.in(); MC_CHECK(!outside, "in", "in() is true on another thread");
    MC_CHECK(throws<thread::not_in_thread>([&] { t.block(); }) && throws<thread::not_in_thread>([&] { t.unblock(); }), "block-outside", "");
    t.wait();
    MC_CHECK(in && self && t.id() == inside, "id", "in() ", in, " wait-on-self rejected ", self); MC_CHECK(w.ended == 1, "run-once", "");
    mc::validated();
}
MC_CONC("never_started", 1, 2) { work w; { thread t{ [&] { w.run(); } }; } MC_CHECK(w.begun == 0, "run-once", ""); }
MC_CONC("abort_unstarted", 1, 2) { work w; { thread t{ [&] { w.run(); } }; t.abort(); MC_CHECK(t.finished(), "finished", "not finished after abort"); MC_CHECK(throws<thread::thread_already_started>([&] { t.start(); }), "start-twice", "an aborted thread can be started"); } MC_CHECK(w.begun == 0, "run-once", ""); }
MC_CONC("cancel_unstarted", 1, 2) { work w; { thread t{ [&] { w.run(); } }; t.cancel(); MC_CHECK(t.finished(), "finished", "not finished after cancel"); } MC_CHECK(w.begun == 0, "run-once", ""); }
MC_CONC("abort", 5, 8)
{
    work w; thread t{ [&] { w.run(); } }; t.start(); t.abort();
    MC_CHECK(w.begun <= 1 && w.begun == w.ended, "abort-waits", "abort returned while the function was running"); MC_CHECK(t.finished(), "finished", "");
    mc::validated();
}
MC_CONC("cancel", 5, 8)
{
    work w; thread t{ [&] { w.run(); } }; t.start(); t.cancel();
    MC_CHECK(w.begun <= 1 && w.begun == w.ended, "abort-waits", "cancel returned while the function was running"); MC_CHECK(t.finished(), "finished", "");
    mc::validated();
}
MC_CONC("abort_loop", 4, 6)
{   // a function that runs until it is told to stop
    work w; thread* p = nullptr; thread t{ [&] { ++w.begun; while (!p->finished()) std::this_thread::yield(); ++w.ended; } }; p = &t; t.start(); t.abort();
    MC_CHECK(w.begun <= 1 && w.begun == w.ended, "abort-waits", ""); MC_CHECK(t.finished(), "finished", "");
    mc::validated();
}
MC_CONC("abort_nowait", 5, 8)
{
    work w; { thread t{ [&] { w.run(); } }; t.start(); t.abort(false); MC_CHECK(t.finished(), "finished", ""); }
    MC_CHECK(w.begun <= 1 && w.begun == w.ended, "destroy-waits", "destroyed while the function was running");
    mc::validated();
}
MC_CONC("destroy", 5, 8)
{
    work w; { thread t{ [&] { w.run(); } }; t.start(); }
    MC_CHECK(w.begun <= 1 && w.begun == w.ended, "destroy-waits", "destroyed while the function was running");
    mc::validated();
}
MC_CONC("two_waiters", 4, 6)
{
    work w; thread t{ [&] { w.run(); } }; t.start();
    std::thread o{ [&] { t.wait(); MC_CHECK(w.ended == 1, "wait-early", "wait returned before the function finished"); } };
    t.wait(); MC_CHECK(w.ended == 1, "wait-early", "wait returned before the function finished"); o.join();
    MC_CHECK(t.state() == thread_state::Finished, "finished", ""); mc::validated();
}
MC_CONC("wait_and_abort", 4, 6)
{
    work w; thread t{ [&] { w.run(); } }; t.start();
    std::thread o{ [&] { t.wait(); MC_CHECK(w.begun == w.ended, "wait-early", ""); } };
    t.abort(); MC_CHECK(w.begun == w.ended, "abort-waits", ""); o.join(); MC_CHECK(t.finished(), "finished", ""); mc::validated();
}
MC_CONC("two_aborts", 4, 5)
{
    work w; thread t{ [&] { w.run(); } }; t.start();
    std::thread o{ [&] { t.abort(); MC_CHECK(t.finished(), "finished", ""); } };
    t.abort(); MC_CHECK(t.finished(), "finished", ""); o.join(); t.wait(); MC_CHECK(w.begun == w.ended && w.begun <= 1, "abort-waits", ""); mc::validated();
}
MC_CONC("two_starts", 4, 6)
{
    work w; thread t{ [&] { w.run(); } }; std::atomic<int> ok{ 0 };
    auto f = [&] { if (!throws<thread::thread_already_started>([&] { t.start(); })) ++ok; };
    std::thread o{ f }; f(); o.join(); MC_CHECK(ok == 1, "start-twice", ok.load(), " of two concurrent starts succeeded");
    t.wait(); MC_CHECK(w.begun == 1 && w.ended == 1, "run-once", ""); mc::validated();
}
MC_CONC("start_vs_wait", 4, 6)
{
    work w; thread t{ [&] { w.run(); } };
    std::thread o{ [&] { spin([&] { return t.started(); }); t.wait(); MC_CHECK(w.ended == 1, "wait-early", ""); } };
    t.start(); o.join(); MC_CHECK(t.state() == thread_state::Finished, "finished", ""); mc::validated();
}
MC_CONC("start_vs_abort", 4, 6)
{
    work w; thread t{ [&] { w.run(); } }; bool started = false;
    std::thread o{ [&] { started = !throws<thread::thread_already_started>([&] { t.start(); }); } };
    t.abort(); MC_CHECK(t.finished(), "finished", "not finished after abort");
    o.join(); t.abort(); MC_CHECK(t.finished(), "finished", "");
    if (started) t.wait(); MC_CHECK(w.begun == w.ended && w.begun <= (started ? 1 : 0), "run-once", ""); mc::validated();
}
MC_CONC("cancel_inside", 5, 8)
{
    work w; thread* p = nullptr; thread t{ [&] { w.run(); p->cancel(); w.run(); } }; p = &t; t.start(); t.wait();
    MC_CHECK(w.begun == 1 && w.ended == 1, "cancel", "the function goes on after cancelling itself"); MC_CHECK(t.finished() && t.cancelled(), "finished", "state ", int(t.state()));
    mc::validated();
}
MC_CONC("abort_inside", 5, 8)
{
    work w; thread* p = nullptr; thread t{ [&] { w.run(); p->abort(); w.run(); } }; p = &t; t.start(); t.wait();
    MC_CHECK(w.begun == 1 && w.ended == 1, "cancel", "the function goes on after aborting itself"); MC_CHECK(t.finished(), "finished", "");
    mc::validated();
}
MC_CONC("block", 4, 6)
{   // a blocked thread notices an abort at its next block/unblock
    work w; thread* p = nullptr; std::atomic<int> rounds{ 0 };
    thread t{ [&] { ++w.begun; for (;;) { p->block(); MC_CHECK(p->blocked(), "blocked", ""); ++rounds; p->unblock(); std::this_thread::yield(); } ++w.ended; } }; p = &t; t.start();
    spin([&] { return rounds > 0; }); t.abort(); MC_CHECK(t.finished() && w.begun == 1 && w.ended == 0, "block", ""); mc::validated();
}
struct no_messages : neolib::i_message_queue { bool r; no_messages(bool r) : r{ r } {} bool have_message() const override { return r; } int get_message() const override { return 0; } void bump() override {} bool in_idle() const override { return false; } void idle() override {} };
MC_CONC("wait_events", 4, 6)
{
    work w; neolib::waitable_event e; neolib::waitable_event_list l{ e }; thread t{ [&] { w.run(); } };
    MC_CHECK(throws<thread::thread_not_started>([&] { t.wait(l); }), "wait-before-start", "");
    t.start(); auto r = t.wait(l);
    MC_CHECK(std::holds_alternative<neolib::wait_result_waitable>(r), "wait-events", "result ", r.index()); MC_CHECK(w.ended == 1, "wait-early", "");
    e.signal_one(); auto r2 = t.wait(l); MC_CHECK(std::holds_alternative<neolib::wait_result_event>(r2), "wait-events", "a signalled event is not reported");
    mc::validated();
}
MC_CONC("wait_event_first", 4, 6)
{
    neolib::waitable_event e; neolib::waitable_event_list l{ e }; std::atomic<bool> stop{ false }; thread t{ [&] { e.signal_one(); spin([&] { return stop.load(); }); } };
    t.start(); auto r = t.wait(l); MC_CHECK(std::holds_alternative<neolib::wait_result_event>(r), "wait-events", "result ", r.index()); stop = true; t.wait(); mc::validated();
}
MC_CONC("msg_wait", 4, 6)
{
    work w; no_messages none{ false }, some{ true }; thread t{ [&] { w.run(); } };
    MC_CHECK(throws<thread::thread_not_started>([&] { t.msg_wait(none); }), "wait-before-start", "");
    t.start(); bool early = t.msg_wait(some); if (early) MC_CHECK(w.ended == 1, "wait-early", "");
    bool r = t.msg_wait(none); MC_CHECK(r && w.ended == 1, "msg-wait", ""); mc::validated();
}
MC_CONC("existing", 0, 1)
{   // attached to the calling thread: start runs the function here
    struct attached : thread { work w; attached() : thread{ "attached", true } {} void exec(neolib::yield_type) override { MC_CHECK(in(), "in", ""); w.run(); } } t;
    MC_CHECK(t.using_existing_thread() && t.in() && !t.started() && t.id() == std::this_thread::get_id(), "existing", "");
    t.start(); MC_CHECK(t.w.begun == 1 && t.w.ended == 1 && t.started(), "existing", "");
    MC_CHECK(throws<thread::thread_already_started>([&] { t.start(); }), "start-twice", "");
    MC_CHECK(throws<thread::cannot_wait_on_self>([&] { t.wait(); }), "wait-on-self", "");
}
MC_CONC("destroy_loop", 4, 6)
{   // destruction tells the function to end
    work w; { thread* p = nullptr; std::atomic<bool> in{ false }; thread t{ [&] { ++w.begun; in = true; while (!p->finished()) std::this_thread::yield(); ++w.ended; } }; p = &t; t.start(); spin([&] { return in.load(); }); }
    MC_CHECK(w.begun == 1 && w.ended == 1, "destroy-waits", ""); mc::validated();
}
MC_CONC("unblock", 4, 6)
{   // a thread that was aborted while blocked is told when it unblocks; without waiting as well
    for (bool wait : { true, false })
    {
        work w; thread* p = nullptr; std::atomic<bool> in{ false }; { thread t{ [&] { ++w.begun; p->block(); in = true; while (!p->finished()) std::this_thread::yield(); p->unblock(); ++w.ended; } }; p = &t; t.start();
        spin([&] { return in.load(); }); MC_CHECK(t.blocked() && t.running() && !t.aborted() && !t.cancelled() && !t.error(), "blocked", ""); t.abort(wait); MC_CHECK(t.finished(), "finished", ""); if (wait) MC_CHECK(!t.blocked(), "blocked", "still blocked after unblocking"); } MC_CHECK(w.begun == 1 && w.ended == 0, "unblock", "the function goes on after it was aborted");
    }
    mc::validated();
}
MC_CONC("block_nowait", 4, 6)
{
    work w; thread* p = nullptr; std::atomic<int> rounds{ 0 };
    { thread t{ [&] { ++w.begun; for (;;) { p->block(); ++rounds; p->unblock(); std::this_thread::yield(); } ++w.ended; } }; p = &t; t.start(); spin([&] { return rounds > 0; }); t.abort(false); MC_CHECK(t.finished(), "finished", ""); }
    MC_CHECK(w.begun == 1 && w.ended == 0, "block", ""); mc::validated();
}
MC_CONC("unstarted_events", 1, 2)
{   // a thread that was ended before it was started has ended for those who wait for events too
    for (bool cancel : { false, true }) { work w; neolib::waitable_event e; neolib::waitable_event_list l{ e }; no_messages none{ false }; thread t{ [&] { w.run(); } }; if (cancel) t.cancel(); else t.abort(); MC_CHECK(std::holds_alternative<neolib::wait_result_waitable>(t.wait(l)) && t.msg_wait(none), "wait-events", ""); MC_CHECK(w.begun == 0, "run-once", ""); } mc::validated();
}
MC_CONC("msg_wait_events", 4, 6)
{
    work w; neolib::waitable_event e; neolib::waitable_event_list l{ e }; no_messages none{ false }, some{ true }; std::atomic<bool> stop{ false }; thread t{ [&] { w.run(); spin([&] { return stop.load(); }); } };
    MC_CHECK(throws<thread::thread_not_started>([&] { t.msg_wait(none, l); }), "wait-before-start", "");
    t.start(); MC_CHECK(std::holds_alternative<neolib::wait_result_message>(t.msg_wait(some, l)), "msg-wait", "message"); e.signal_one(); MC_CHECK(std::holds_alternative<neolib::wait_result_event>(t.msg_wait(none, l)), "msg-wait", "event"); stop = true; MC_CHECK(std::holds_alternative<neolib::wait_result_waitable>(t.msg_wait(none, l)) && w.ended == 1, "msg-wait", "end"); mc::validated();
}
MC_CONC("wait_inside", 4, 5)
{   // a thread waiting for itself is refused in every way of waiting
    thread* p = nullptr; neolib::waitable_event e; neolib::waitable_event_list l{ e }; no_messages none{ false }; int refused = 0; thread t{ [&] { refused += throws<thread::cannot_wait_on_self>([&] { p->wait(l); }); refused += throws<thread::cannot_wait_on_self>([&] { p->msg_wait(none); }); refused += throws<thread::cannot_wait_on_self>([&] { p->msg_wait(none, l); }); refused += throws<thread::cannot_wait_on_self>([&] { p->wait(); }); } }; p = &t; t.start(); t.wait(); MC_CHECK(refused == 4, "wait-on-self", refused); mc::validated();
}
MC_CONC("existing_ends", 0, 1)
{   // attached to the calling thread: cancelling, exceptions and having nothing to do
    struct attached : thread { int what; work w; attached(int what) : thread{ "", true }, what{ what } {} void exec_preamble() override { ++w.begun; } void exec(neolib::yield_type) override { MC_CHECK(w.begun == 1 && running(), "existing", ""); if (what == 0) cancel(); if (what == 1) abort(); if (what == 2) throw std::runtime_error("x"); if (what == 3) throw 3;++w.ended; } };
    for (int what = 0; what < 4; ++what)
    {
        attached t{ what }; bool const threw = [&] { try { t.start(); return false; } catch (...) { return true; } }();
        MC_CHECK(threw == (what >= 2) && t.w.begun == 1 && t.w.ended == 0 && t.finished(), "existing-ends", what, " threw ", threw, " ended ", t.w.ended); MC_CHECK(t.error() == (what >= 2) && t.cancelled() == (what < 2), "existing-ends", what, " state ", int(t.state()));
    }
    thread t{ "", true }; bool threw = false; try { t.start(); } catch (std::exception const&) { threw = true; } MC_CHECK(threw && t.error() && t.finished(), "existing-ends", "nothing to do");
    mc::validated();
}
MC_CONC("no_function", 1, 2) { thread t{ "n" }; MC_CHECK(throws<thread::no_thread_object>([&] { t.thread_object(); }), "no-thread", ""); mc::validated(); }
