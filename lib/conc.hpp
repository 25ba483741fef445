// conc.hpp - scenarios for the controlled-scheduler engine (sched.cpp).
//
// The scenario body runs on a fresh logical main thread; every thread it creates (std::thread, neolib::thread, pool
// workers...) is run one at a time under the engine's scheduler.  All interleavings of the synchronisation operations
// (atomics, mutexes, condition variables, futexes, thread start/join, sleeps, time-outs, spurious wake-ups) that need at
// most B deviations from the default schedule (B = preemption bound) are executed, with happens-before race detection on
// every plain memory access, use-after-free detection, deadlock and livelock detection.
#pragma once
#include "mc.hpp"
namespace conc
{
    #define MC_CONC(name, boundQuick, boundThorough) static void MC_CAT(mc_body_, __LINE__)(); static ::mc::registrar_ss MC_CAT(mc_reg_, __LINE__){ name, MC_CAT(mc_body_, __LINE__), boundQuick, boundThorough, 30 }; static void MC_CAT(mc_body_, __LINE__)()
    void step(int what);                       // visible event: appended to the execution's log (its order is explored)
    std::vector<int> const& steps();
    void hw(unsigned n);                       // what std::thread::hardware_concurrency() answers
    void allow_leaks();
    void no_spurious();                        // no spurious condition variable wake-ups in this scenario
    void no_timeouts();                        // timed waits time out only when nothing else can run
    std::int64_t now_ns();                     // virtual time
    void advance_ns(std::int64_t d);           // lets virtual time pass
    struct quiet { quiet(); ~quiet(); };       // no preemptions while alive (set-up code)
    struct engine_guard { bool mine = false; engine_guard(); ~engine_guard(); };   // code inside is invisible to the engine
    #undef MC_TRACE
    #define MC_TRACE(...) do { if (::mc::tracing()) { ::conc::engine_guard g_; ::mc::trace_line(::mc::str(__VA_ARGS__)); } } while (0)
    int tid();
    bool others_blocked();                     // every other logical thread is blocked or finished
}
