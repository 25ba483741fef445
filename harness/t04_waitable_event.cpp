// @props T04
// @engine conc
// @src src/task/waitable_event.cpp src/task/thread.cpp
// @link -lboost_chrono
// Waitable events: how many waits succeed against how many signals were given, in every interleaving with time-outs and
// spurious wake-ups; final polls account for the signals that are left.
#include <neolib/task/waitable_event.hpp>
#include "conc.hpp"
#include <thread>
#include <atomic>
using neolib::waitable_event; using neolib::waitable_event_list;
static void spin(std::function<bool()> c) { while (!c()) std::this_thread::yield(); }
static int left(waitable_event& e) { int n = 0; while (e.wait(0)) { ++n; MC_CHECK(n < 5, "pending", "an event stays signalled for ever"); } return n; }

MC_CONC("sticky", 2, 3) { waitable_event e; MC_CHECK(!e.wait(0), "pending", "a new event is signalled"); e.signal_one(); e.signal_one(); MC_CHECK(left(e) == 1, "pending", "signals before any wait are not one pending signal"); e.signal_all(); MC_CHECK(left(e) == 1, "pending", ""); e.signal_one(); e.reset(); MC_CHECK(left(e) == 0, "reset", ""); e.signal_all(); e.reset(); MC_CHECK(left(e) == 0, "reset", ""); e.signal_all(); e.signal_one(); MC_CHECK(left(e) == 1, "pending", ""); e.signal_one(); e.wait(); MC_CHECK(!e.wait(5), "pending", ""); mc::validated(); }
MC_CONC("wait_one", 6, 9) { waitable_event e; bool done = false; std::thread t{ [&] { e.wait(); done = true; } }; e.signal_one(); t.join(); MC_CHECK(done && left(e) == 0, "pending", "the signal was not consumed"); mc::validated(); }
MC_CONC("publish", 6, 9) { waitable_event e; int data = 0; std::thread t{ [&] { e.wait(); MC_CHECK(data == 7, "early", "wait returned before the signal"); data = 8; } }; data = 7; e.signal_one(); t.join(); mc::validated(); }
MC_CONC("timed_one", 6, 9)
{
    waitable_event e; bool r = false; std::thread t{ [&] { r = e.wait(10); } }; e.signal_one(); t.join();
    int n = left(e); MC_CHECK(int(r) + n == 1, r ? "duplicated" : "lost", "one signal: wait returned ", r, ", ", n, " left"); mc::validated();
}
MC_CONC("timed_none", 4, 6) { waitable_event e; bool r = true, q = true; std::thread t{ [&] { r = e.wait(10); } }; q = e.wait(5); t.join(); MC_CHECK(!r && !q, "spurious", "a wait succeeds without a signal"); mc::validated(); }
MC_CONC("timed_two", 4, 5)
{
    waitable_event e; bool r[2]; std::thread t{ [&] { r[0] = e.wait(10); } }, u{ [&] { r[1] = e.wait(20); } }; e.signal_one(); t.join(); u.join();
    int n = left(e); MC_CHECK(r[0] + r[1] + n == 1, r[0] + r[1] + n > 1 ? "duplicated" : "lost", "one signal: waits returned ", r[0], r[1], ", ", n, " left"); mc::validated();
}
MC_CONC("timed_vs_untimed", 4, 5)
{
    waitable_event e; bool r; std::atomic<bool> u_done{ false }; std::thread t{ [&] { r = e.wait(10); } }, u{ [&] { e.wait(); u_done = true; } }; e.signal_one();
    t.join(); if (r) { MC_CHECK(!u_done, "duplicated", "one signal let two waiters through"); e.signal_one(); } u.join(); MC_CHECK(left(e) == 0, "pending", ""); mc::validated();
}
MC_CONC("two_signals", 4, 5)
{   // the second signal is given only once the first was consumed: both waiters must get through
    waitable_event e; std::atomic<int> passed{ 0 }; auto f = [&] { e.wait(); ++passed; }; std::thread t{ f }, u{ f };
    e.signal_one(); spin([&] { return passed >= 1; }); MC_CHECK(passed == 1, "duplicated", "one signal let two waiters through"); e.signal_one(); t.join(); u.join(); MC_CHECK(left(e) == 0, "pending", ""); mc::validated();
}
MC_CONC("poll_consumer", 4, 6)
{   // a consumer that polls must see every signal
    waitable_event e; std::atomic<int> got{ 0 }; std::thread t{ [&] { while (!e.wait(0)) std::this_thread::yield(); ++got; while (!e.wait(1)) std::this_thread::yield(); ++got; } };
    e.signal_one(); spin([&] { return got == 1; }); e.signal_one(); t.join(); MC_CHECK(got == 2 && left(e) == 0, "pending", ""); mc::validated();
}
MC_CONC("all_untimed", 4, 5)
{
    waitable_event e; std::atomic<int> passed{ 0 }; auto f = [&] { e.wait(); ++passed; }; std::thread t{ f }, u{ f }; spin([] { return conc::others_blocked(); });
    e.signal_all(); t.join(); u.join(); MC_CHECK(passed == 2 && left(e) == 0, "pending", ""); mc::validated();
}
MC_CONC("all_then_one", 4, 5)
{
    waitable_event e; std::atomic<int> passed{ 0 }; auto f = [&] { e.wait(); ++passed; }; std::thread t{ f }, u{ f }; spin([] { return conc::others_blocked(); });
    e.signal_all(); e.signal_one(); t.join(); u.join(); MC_CHECK(passed == 2, "lost", ""); int n = left(e); MC_CHECK(n <= 1, "duplicated", ""); mc::validated();
}
MC_CONC("all_then_late", 4, 5)
{   // a waiter arriving while the broadcast drains must not take it from those who were waiting
    waitable_event e; std::atomic<int> passed{ 0 }; auto f = [&] { e.wait(); ++passed; }; std::thread t{ f }, u{ f }; spin([] { return conc::others_blocked(); });
    e.signal_all(); bool late = e.wait(5); t.join(); u.join(); MC_CHECK(passed == 2, "lost", ""); (void)late; MC_CHECK(left(e) <= 1, "duplicated", ""); mc::validated();
}
MC_CONC("all_timed", 4, 5)
{
    conc::no_timeouts(); waitable_event e; bool r[2]; std::thread t{ [&] { r[0] = e.wait(50); } }, u{ [&] { r[1] = e.wait(50); } }; spin([] { return conc::others_blocked(); });
    e.signal_all(); t.join(); u.join(); MC_CHECK(r[0] && r[1], "lost", "signal_all let only ", r[0] + r[1], " of two waiters through"); MC_CHECK(left(e) == 0, "pending", ""); mc::validated();
}
MC_CONC("all_mixed", 4, 5)
{
    waitable_event e; bool r = false; std::atomic<int> passed{ 0 }; std::thread t{ [&] { r = e.wait(10); } }, u{ [&] { e.wait(); ++passed; } }; spin([] { return conc::others_blocked(); });
    e.signal_all(); t.join(); u.join(); MC_CHECK(passed == 1, "lost", ""); int n = left(e); MC_CHECK(n == 0, "pending", ""); mc::validated();
}
MC_CONC("signal_race", 5, 7)
{   // two signallers, one waiter, then a poll: at least one and at most two successes
    waitable_event e; std::thread t{ [&] { e.signal_one(); } }, u{ [&] { e.signal_one(); } }; e.wait(); t.join(); u.join(); int n = left(e); MC_CHECK(n <= 1, "duplicated", ""); mc::validated();
}
struct messages : neolib::i_message_queue { std::atomic<bool> have{ false }; bool have_message() const override { return have; } int get_message() const override { return 0; } void bump() override {} bool in_idle() const override { return false; } void idle() override {} };
MC_CONC("msg_wait", 4, 5)
{
    waitable_event e; messages m; int which = -1; std::thread t{ [&] { which = e.msg_wait(m); } }; e.signal_one(); m.have = true; t.join();
    int n = left(e); MC_CHECK(which + n == 1, which + n > 1 ? "duplicated" : "lost", "msg_wait returned ", which, ", ", n, " left"); mc::validated();
}
MC_CONC("msg_wait_timed", 3, 4)
{
    waitable_event e; messages m; bool r = false; std::thread t{ [&] { r = e.msg_wait(m, 3); } }; e.signal_one(); t.join();
    int n = left(e); MC_CHECK(int(r) + n == 1, r ? "duplicated" : "lost", ""); mc::validated();
}
MC_CONC("msg_wait_timeout", 0, 1) { waitable_event e; messages m; auto t0 = conc::now_ns(); MC_CHECK(!e.msg_wait(m, 3), "spurious", ""); MC_CHECK(conc::now_ns() - t0 >= 3000000, "timeout", "timed out early"); m.have = true; MC_CHECK(!e.msg_wait(m) && !e.msg_wait(m, 100), "message", ""); e.signal_one(); MC_CHECK(e.msg_wait(m), "event", "the event takes precedence"); }
MC_CONC("timeout_length", 0, 1) { waitable_event e; auto t0 = conc::now_ns(); MC_CHECK(!e.wait(7), "spurious", ""); MC_CHECK(conc::now_ns() - t0 >= 7000000, "timeout", "timed out early"); }
MC_CONC("list", 4, 5)
{
    waitable_event a, b; waitable_event const* p[] = { &a, &b }; std::vector<waitable_event const*> v(p, p + 2); struct it { waitable_event const** q; waitable_event const& operator*() { return **q; } it operator++(int) { it r = *this; ++q; return r; } bool operator!=(it const& o) const { return q != o.q; } };
    waitable_event_list l(it{ p }, it{ p + 2 }); waitable_event const* got = nullptr;
    std::thread t{ [&] { auto r = l.wait(); got = &std::get<neolib::wait_result_event>(r).iEvent; } }; b.signal_one(); t.join();
    MC_CHECK(got == &b && left(b) == 0 && left(a) == 0, "list", "the wrong event is reported"); mc::validated();
}
MC_CONC("list_both", 3, 4)
{
    waitable_event a, b; waitable_event const* p[] = { &a, &b }; struct it { waitable_event const** q; waitable_event const& operator*() { return **q; } it operator++(int) { it r = *this; ++q; return r; } bool operator!=(it const& o) const { return q != o.q; } };
    waitable_event_list l(it{ p }, it{ p + 2 }); waitable_event const* got = nullptr;
    std::thread t{ [&] { auto r = l.wait(); got = &std::get<neolib::wait_result_event>(r).iEvent; } }, u{ [&] { a.signal_one(); } }; b.signal_one(); t.join(); u.join();
    int na = left(a), nb = left(b); MC_CHECK(got && na + nb == 1 && (got == &a ? nb : na) == 1, "list", "one of two signals lost or duplicated"); mc::validated();
}
struct ready : neolib::waitable { std::atomic<bool> r{ false }; bool waitable_ready() const override { return r; } };
MC_CONC("list_other", 3, 4)
{
    waitable_event a; messages m; ready w; waitable_event_list l{ a }; std::size_t k = 9; std::thread t{ [&] { k = l.msg_wait(m, w).index(); } }; m.have = true; w.r = true; t.join(); MC_CHECK(k == 1 || k == 2, "list", "");
    MC_CHECK(l.msg_wait(m).index() == 1 && l.wait(w).index() == 2, "list", ""); a.signal_one(); MC_CHECK(l.msg_wait(m).index() == 0 && left(a) == 0, "list", ""); a.signal_one(); MC_CHECK(l.wait(w).index() == 0 && left(a) == 0, "list", ""); a.signal_one(); MC_CHECK(l.msg_wait(m, w).index() == 0 && left(a) == 0, "list", ""); mc::validated();
}
// two rounds, each of its own kind: what one round did must not show in the next
static void round(waitable_event& e, int kind)
{
    std::atomic<int> passed{ 0 }; auto w = [&] { e.wait(); ++passed; }; bool r = false; auto tw = [&] { r = e.wait(10); if (r) ++passed; };
    switch (kind)
    {
    case 0: { std::thread t{ w }; spin([] { return conc::others_blocked(); }); e.signal_one(); t.join(); MC_CHECK(passed == 1, "lost", ""); break; }
    case 1: { std::thread t{ w }; spin([] { return conc::others_blocked(); }); e.signal_all(); t.join(); MC_CHECK(passed == 1, "lost", ""); break; }
    case 2: { std::thread t{ w }, u{ w }; spin([] { return conc::others_blocked(); }); e.signal_all(); t.join(); u.join(); MC_CHECK(passed == 2, "lost", ""); break; }
    case 3: { std::thread t{ tw }; t.join(); MC_CHECK(!r, "spurious", ""); break; }
    case 4: { std::thread t{ tw }; spin([] { return conc::others_blocked(); }); e.signal_all(); t.join(); int n = left(e); MC_CHECK(passed + n == 1, "lost", ""); return; }
    case 5: { e.signal_one(); e.reset(); break; }
    case 6: { e.signal_all(); e.wait(); break; }
    case 7: { e.signal_one(); e.wait(); break; }
    }
    MC_CHECK(left(e) == 0, "pending", "still signalled after round ", kind);
}
template <int A> static void rounds() { waitable_event e; int b = 0; round(e, A); for (b = 0; b < 8; ++b) round(e, b); mc::validated(); }
MC_CONC("rounds_0", 1, 2) { rounds<0>(); }
MC_CONC("rounds_1", 1, 2) { rounds<1>(); }
MC_CONC("rounds_2", 1, 2) { rounds<2>(); }
MC_CONC("rounds_3", 1, 2) { rounds<3>(); }
MC_CONC("rounds_4", 1, 2) { rounds<4>(); }
MC_CONC("rounds_5", 1, 2) { rounds<5>(); }
MC_CONC("rounds_6", 1, 2) { rounds<6>(); }
MC_CONC("rounds_7", 1, 2) { rounds<7>(); }
