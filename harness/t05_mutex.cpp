// @props T05
// @engine conc
// @src src/core/mutex.cpp src/core/service.cpp
// Mutual exclusion, recursion, try-lock and wake-up of every lockable type, all interleavings of 2-3 threads.
#include <neolib/core/mutex.hpp>
#include "conc.hpp"
#include <thread>
#include <atomic>
#include <array>
using namespace neolib;
static auto& sProvider = services::allocate_service_provider();   // what an application does first

// The lockables under test behind one interface.
struct sw { switchable_mutex<> m; };
template <int Mode> struct subject;
template <> struct subject<0> { recursive_mutex<> m; i_lockable& l() { return m; } };
template <> struct subject<1> { recursive_mutex<void, true> m; i_lockable& l() { return m; } };
template <> struct subject<2> { recursive_mutex<void, true, true> m; i_lockable& l() { return m; } };
template <> struct subject<3> { switchable_mutex<> m; i_lockable& l() { return m; } };
template <> struct subject<4> { switchable_mutex<> m; subject() { m.set_multi_threaded_profiled(); } i_lockable& l() { return m; } };
template <> struct subject<5> { switchable_mutex<> m; subject() { m.set_multi_threaded_spinlock(); } i_lockable& l() { return m; } };
template <> struct subject<6> { recursive_mutex<> r; proxy_mutex<recursive_mutex<>> m; subject() : m{ r } {} i_lockable& l() { return m; } };
template <> struct subject<7> { switchable_mutex<> m; subject() { m.set_single_threaded(); m.set_multi_threaded_spinlock(); m.set_multi_threaded(); } i_lockable& l() { return m; } };
template <> struct subject<8> { std::recursive_mutex r; struct as : i_lockable { std::recursive_mutex& r; as(std::recursive_mutex& r) : r{ r } {} void lock() noexcept final { r.lock(); } void unlock() noexcept final { r.unlock(); } bool try_lock() noexcept final { return r.try_lock(); } } a; proxy_mutex<i_lockable> m; subject() : a{ r }, m{ a } {} i_lockable& l() { return m; } };

// Critical section: plain data, so that the race detector sees any lack of ordering; occupancy checks exclusion itself.
struct section
{
    int in = 0; long sum = 0; int owner = -1;
    void enter(int who) { MC_CHECK(in == 0 || owner == who, "exclusion", "thread ", who, " is in the critical section together with thread ", owner); owner = who; ++in; ++sum; }
    void leave(int who) { MC_CHECK(in > 0 && owner == who, "exclusion", "thread ", who, " finds thread ", owner, " in its critical section"); --in; if (in == 0) owner = -1; }
};

template <int Mode> static void exclusion(int threads, int rounds, bool relock)
{
    subject<Mode> s; section c; i_lockable& l = s.l();
    auto f = [&](int who)
    {
        for (int i = 0; i < rounds; ++i)
        {
            l.lock(); c.enter(who);
            if (relock) { l.lock(); c.enter(who); l.unlock(); c.leave(who); }
            c.leave(who); l.unlock();
        }
    };
    std::vector<std::thread> t; for (int i = 1; i < threads; ++i) t.emplace_back(f, i);
    f(0);
    for (auto& x : t) x.join();
    MC_CHECK(c.sum == threads * rounds * (relock ? 2 : 1), "count", c.sum);
    MC_CHECK(l.try_lock(), "try-lock", "a mutex nobody holds cannot be locked"); l.unlock();
    mc::validated();
}
template <int Mode> static void trylock(bool nested)
{
    subject<Mode> s; section c; i_lockable& l = s.l(); std::atomic<int> holderStarted{ 0 }, holderDone{ 0 };
    std::thread a([&] { holderStarted = 1; l.lock(); c.enter(1); if (nested) { bool r = l.try_lock(); MC_CHECK(r, "try-lock", "the owner's try-lock fails"); l.unlock(); } c.leave(1); l.unlock(); holderDone = 1; });
    for (int i = 0; i < 2; ++i)
    {
        int done = holderDone.load(); bool r = l.try_lock(); int started = holderStarted.load();
        if (r)
        {
            c.enter(0); if (nested) { l.lock(); c.enter(0); c.leave(0); l.unlock(); }
            bool again = l.try_lock(); MC_CHECK(again, "try-lock", "the owner's try-lock fails"); l.unlock();
            c.leave(0); l.unlock();
        }
        else MC_CHECK(started && !done, "try-lock", "try-lock fails although no thread can hold the lock");
    }
    a.join(); MC_CHECK(c.in == 0, "exclusion", "");
    mc::validated();
}
// The matching number of unlocks, and not fewer, releases the lock.
template <int Mode> static void depth(int d)
{
    subject<Mode> s; i_lockable& l = s.l(); std::atomic<int> level{ 0 };
    for (int i = 0; i < d; ++i) { bool r = true; if (i & 1) r = l.try_lock(); else l.lock(); MC_CHECK(r, "try-lock", "the owner's try-lock fails"); }
    level = d;
    std::thread a([&] { if (l.try_lock()) { MC_CHECK(level.load() == 0, "exclusion", "lock taken while the owner still holds it ", level.load(), " time(s)"); l.unlock(); } l.lock(); MC_CHECK(level.load() == 0, "exclusion", "lock taken while the owner still holds it ", level.load(), " time(s)"); l.unlock(); });
    for (int i = 0; i < d; ++i) { level = d - i - 1; l.unlock(); }
    a.join(); mc::validated();
}

MC_CONC("sleep_2x2", 4, 6) { exclusion<0>(2, 2, false); }
MC_CONC("sleep_relock", 4, 6) { exclusion<0>(2, 1, true); }
MC_CONC("sleep_3x1", 3, 5) { exclusion<0>(3, 1, false); }
MC_CONC("sleep_try", 4, 6) { trylock<0>(true); }
MC_CONC("sleep_depth", 4, 6) { depth<0>(3); }
MC_CONC("proxy_relock", 3, 5) { exclusion<6>(2, 1, true); }
MC_CONC("proxy_try", 3, 5) { trylock<6>(true); }
MC_CONC("proxy_iface", 3, 5) { exclusion<8>(2, 2, true); }
MC_CONC("proxy_iface_try", 3, 5) { trylock<8>(true); }
MC_CONC("switch_relock", 4, 6) { exclusion<3>(2, 2, true); }
MC_CONC("switch_try", 4, 6) { trylock<3>(true); }
MC_CONC("switch_depth", 4, 6) { depth<3>(3); }
MC_CONC("switch_prof_relock", 3, 5) { exclusion<4>(2, 1, true); }
MC_CONC("switch_prof_try", 3, 5) { trylock<4>(true); }
MC_CONC("switch_back", 3, 5) { exclusion<7>(2, 1, true); trylock<7>(false); }
MC_CONC("null", 0, 0) { null_mutex m; m.lock(); m.lock(); MC_CHECK(m.try_lock(), "try-lock", ""); m.unlock(); m.unlock(); m.unlock(); switchable_mutex<> s; s.set_single_threaded(); s.lock(); MC_CHECK(s.try_lock(), "try-lock", ""); s.unlock(); s.unlock(); }
MC_CONC("spin_2x1", 3, 4) { exclusion<1>(2, 1, false); }
MC_CONC("spinyield_2x1", 3, 4) { exclusion<2>(2, 1, false); }
MC_CONC("spin_try", 2, 3) { trylock<1>(true); }
MC_CONC("switch_spin_depth", 3, 4) { depth<5>(2); }

// Several mutexes at once, named in opposite orders: no deadlock, all are held, all are released.
MC_CONC("multi", 3, 5)
{
    recursive_mutex<> a, b; section ca, cb;
    auto f = [&](int who, bool swap) { std::vector<proxy_mutex<recursive_mutex<>>> v; v.emplace_back(swap ? b : a); v.emplace_back(swap ? a : b); { scoped_multi_lock l{ v }; ca.enter(who); cb.enter(who); cb.leave(who); ca.leave(who); } };
    std::thread t(f, 1, true); f(0, false); t.join();
    MC_CHECK(a.try_lock() && b.try_lock(), "multi", "still locked"); a.unlock(); b.unlock(); MC_CHECK(ca.sum == 2, "count", "");
    mc::validated();
}
// The profiler only observes.
struct observer : i_mutex_profiler_observer { std::atomic<int> n{ 0 }; void mutex_contended(i_lockable&, const std::chrono::microseconds&, mutex_lock_info const*, std::size_t) noexcept final { ++n; } };
MC_CONC("profiled", 3, 5)
{
    observer o; auto& p = service<i_mutex_profiler>(); p.subscribe(o); p.enable(std::chrono::microseconds{ 0 }, 0u, true);
    exclusion<0>(2, 2, true);
    {   // contention that lasts is reported, while the mutex is held by the thread that suffered it
        recursive_mutex<> m; section c; m.lock(); std::thread t([&] { m.lock(); c.enter(1); c.leave(1); m.unlock(); }); c.enter(0); conc::step(1); conc::advance_ns(5000000); c.leave(0); m.unlock(); t.join();
    }
    p.disable(); p.unsubscribe(o); int n = o.n;
    exclusion<0>(2, 1, false);
    MC_CHECK(o.n == n, "profiler", "an unsubscribed observer is notified");
}
