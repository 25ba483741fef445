// @props T01 T02 T03
// @engine conc
// @src src/task/thread_pool.cpp src/task/thread.cpp src/task/waitable_event.cpp
// @link -lboost_chrono
// neolib::thread_pool: every accepted task runs once, waiting, stopping and destruction end, priorities are honoured.
#include <neolib/task/thread_pool.hpp>
#include <list>
#include "conc.hpp"
using neolib::thread_pool; using neolib::yield_type;

struct job : neolib::task<> // plain members: an unordered access is a race
{
    int ran = 0; std::function<void()> f;
    job(std::function<void()> f = {}) : f{ f } {}
    void run(yield_type) override { ++ran; if (f) f(); }
};
using jobs = std::vector<std::shared_ptr<job>>;
static void spin(std::function<bool()> c) { while (!c()) std::this_thread::yield(); }
static void all_ran(jobs const& js) { for (auto& j : js) MC_CHECK(j->ran == 1, "ran-once", "a task ran ", j->ran, " times"); }
struct pool : thread_pool { }; // built under the engine's eyes: the workers start up in every interleaving
template <std::size_t N> struct hwn { hwn() { conc::hw(N); } };

// ---- T01
MC_CONC("T01/one_worker", 4, 6)
{
    hwn<1> h; pool p; MC_CHECK(p.max_threads() == 1 && p.idle() && !p.busy() && !p.stopped() && p.total_threads() == 1, "initial-state", "");
    jobs js; for (int i = 0; i < 3; ++i) { js.push_back(std::make_shared<job>()); p.start(js.back()); }
    p.wait(); all_ran(js); MC_CHECK(p.idle() && p.active_threads() == 0 && p.available_threads() == 1, "idle", "not idle after wait"); mc::validated();
}
MC_CONC("T01/two_workers", 3, 4)
{
    hwn<2> h; pool p; jobs js; for (int i = 0; i < 3; ++i) { js.push_back(std::make_shared<job>()); p.start(js.back()); }
    p.wait(); all_ran(js); mc::validated();
}
MC_CONC("T01/by_reference", 3, 5)
{
    hwn<1> h; job a, b; { pool p; p.start(a); p.start(static_cast<neolib::i_task&>(b)); p.wait(); } MC_CHECK(a.ran == 1 && b.ran == 1, "ran-once", ""); mc::validated();
}
MC_CONC("T01/future", 3, 5)
{
    hwn<1> h; pool p; auto a = p.run<int>([] { return 7; }); auto b = p.run<int>([] { return 8; }); int c = 0; auto v = p.run([&c] { c = 9; });
    int x = a.first.get(), y = b.first.get(); v.first.get(); MC_CHECK(x == 7 && y == 8 && c == 9, "future", "futures delivered ", x, " ", y, " ", c); mc::validated();
}
MC_CONC("T01/future_two", 2, 3)
{
    hwn<2> h; pool p; auto a = p.run<int>([] { return 7; }); auto b = p.run<int>([] { return 8; });
    int y = b.first.get(), x = a.first.get(); MC_CHECK(x == 7 && y == 8, "future", "futures delivered ", x, " ", y); mc::validated();
}
MC_CONC("T01/throwing", 2, 3)
{
    hwn<1> h; pool p; auto a = p.run<int>([]() -> int { throw std::runtime_error("task failed"); }); auto b = p.run([]() { throw std::runtime_error("task failed"); }); auto c = p.run<int>([]() { return 3; });
    auto thrown = [](auto& f) { try { f.get(); return false; } catch (std::runtime_error const& e) { return std::string(e.what()) == "task failed"; } };
    MC_CHECK(thrown(a.first) && thrown(b.first), "future-exception", "a task's exception does not reach its future"); MC_CHECK(c.first.get() == 3, "future", ""); p.wait(); mc::validated();
}
MC_CONC("T01/cancelled", 4, 6)
{
    hwn<1> h; pool p; std::atomic<int> state{ 0 }; auto a = std::make_shared<job>([&] { spin([&] { return state == 1; }); }), b = std::make_shared<job>(), c = std::make_shared<job>();
    p.start(a); p.start(b); p.start(c); b->cancel(); state = 1; p.wait();
    MC_CHECK(b->ran == 0, "cancelled-ran", "a task cancelled before it could start was run"); MC_CHECK(a->ran == 1 && c->ran == 1 && b->cancelled() && !a->cancelled(), "ran-once", ""); mc::validated();
}
MC_CONC("T01/two_submitters", 3, 4)
{
    hwn<1> h; pool p; jobs js; for (int i = 0; i < 4; ++i) js.push_back(std::make_shared<job>());
    std::thread o{ [&] { p.start(js[0]); p.start(js[1]); } }; p.start(js[2]); p.start(js[3]); o.join(); p.wait(); all_ran(js); mc::validated();
}
MC_CONC("T01/two_submitters_two_workers", 2, 3)
{
    hwn<2> h; pool p; jobs js; for (int i = 0; i < 4; ++i) js.push_back(std::make_shared<job>());
    std::thread o{ [&] { p.start(js[0]); p.start(js[1]); } }; p.start(js[2]); p.start(js[3]); o.join(); p.wait(); all_ran(js); mc::validated();
}
MC_CONC("T01/nested_submit", 3, 5)
{   // a task that submits a task
    hwn<1> h; pool p; auto b = std::make_shared<job>(); auto a = std::make_shared<job>([&] { p.start(b); }); p.start(a); p.wait(); MC_CHECK(a->ran == 1 && b->ran == 1, "ran-once", "tasks ran ", a->ran, " and ", b->ran, " times"); mc::validated();
}
MC_CONC("T01/nested_submit_two", 2, 3)
{
    hwn<2> h; pool p; auto b = std::make_shared<job>(), c = std::make_shared<job>(); auto a = std::make_shared<job>([&] { p.start(b); p.start(c); }); p.start(a); p.wait(); all_ran({ a, b, c }); mc::validated();
}
MC_CONC("T01/steal", 2, 3)
{   // work queued behind a busy worker is taken by the other
    hwn<2> h; pool p; std::atomic<bool> go{ false }; jobs js; js.push_back(std::make_shared<job>([&] { spin([&] { return go.load(); }); })); p.start(js[0]);
    std::atomic<int> done{ 0 }; for (int i = 0; i < 3; ++i) { js.push_back(std::make_shared<job>([&] { ++done; })); p.start(js.back()); }
    spin([&] { return done == 3; }); MC_CHECK(p.busy(), "busy", "the pool is idle while a task runs"); go = true; p.wait(); all_ran(js); mc::validated();
}
MC_CONC("T01/try_start", 3, 5)
{
    hwn<1> h; pool p; std::atomic<bool> go{ false }; jobs js; js.push_back(std::make_shared<job>([&] { spin([&] { return go.load(); }); })); js.push_back(std::make_shared<job>());
    MC_CHECK(p.try_start(js[0]), "try-start", "refused although a worker is free"); MC_CHECK(p.active_threads() == 1 && p.available_threads() == 0, "active", "");
    bool second = p.try_start(*js[1]); MC_CHECK(!second, "try-start", "accepted although every worker is busy"); go = true; p.wait(); MC_CHECK(js[0]->ran == 1 && js[1]->ran == 0, "ran-once", ""); mc::validated();
}
MC_CONC("T01/reserve", 2, 3)
{
    hwn<1> h; pool p; jobs js; std::atomic<int> both{ 0 }; p.reserve(2); MC_CHECK(p.max_threads() == 2 && p.total_threads() == 2, "reserve", "");
    for (int i = 0; i < 2; ++i) { js.push_back(std::make_shared<job>([&] { ++both; spin([&] { return both == 2; }); })); p.start(js.back()); } // needs both workers
    p.wait(); all_ran(js); mc::validated();
}
MC_CONC("T01/reserve_busy", 2, 3)
{
    hwn<1> h; pool p; jobs js; for (int i = 0; i < 3; ++i) js.push_back(std::make_shared<job>()); p.start(js[0]); p.start(js[1]);
    std::thread o{ [&] { p.start(js[2]); } }; p.reserve(2); o.join(); p.wait(); all_ran(js); mc::validated();
}
static void applied(std::size_t hw, std::size_t n, std::size_t minimum)
{
    conc::hw(hw); pool p; std::vector<int> v(n); neolib::parallel_apply<std::vector<int>>(p, v, [](int& e) { e += 1; }, minimum);
    for (auto e : v) MC_CHECK(e == 1, "parallel-apply", "an element was processed ", e, " times"); mc::validated();
}
MC_CONC("T01/parallel_apply", 1, 2) { std::size_t n = mc::choose(6); applied(2, n, mc::choose(2) ? 3 : 0); }
MC_CONC("T01/parallel_apply_three", 1, 1) { applied(3, 3 + mc::choose(5), 0); }
MC_CONC("T01/parallel_apply_list", 1, 2) { conc::hw(2); pool p; std::list<int> v(3); neolib::parallel_apply<std::list<int>>(p, v, [](int& e) { e += 1; }); for (auto e : v) MC_CHECK(e == 1, "parallel-apply", ""); mc::validated(); }
MC_CONC("T01/parallel_apply_none", 1, 2) { conc::hw(1); pool p; p.reserve(0); std::vector<int> v(2); neolib::parallel_apply<std::vector<int>>(p, v, [](int& e) { e += 1; }); for (auto e : v) MC_CHECK(e == 1, "parallel-apply", ""); mc::validated(); }
MC_CONC("T01/stop_keeps_running", 3, 5)
{   // stopping: what has begun is finished, nothing runs twice, nothing is accepted any more
    hwn<1> h; jobs js; { pool p; for (int i = 0; i < 2; ++i) { js.push_back(std::make_shared<job>()); p.start(js.back()); } p.stop(); int a = js[0]->ran, b = js[1]->ran; MC_CHECK(p.stopped() && a <= 1 && b <= a, "ran-once", "");
      js.push_back(std::make_shared<job>()); p.start(js[2]); MC_CHECK(!p.try_start(js[2]) && !p.run([] {}).second, "stopped-accepts", "a stopped pool accepts a task"); p.wait(); MC_CHECK(js[0]->ran == a && js[1]->ran == b && js[2]->ran == 0, "runs-after-stop", "a task ran after the pool was stopped"); }
    MC_CHECK(js[2]->ran == 0, "runs-after-stop", ""); mc::validated();
}
// ---- T02
MC_CONC("T02/wait_means_done", 4, 6)
{
    hwn<1> h; pool p; auto a = std::make_shared<job>([] { std::this_thread::yield(); }); p.start(a); p.wait(); MC_CHECK(a->ran == 1, "wait-early", "wait returned before the task finished"); p.wait(); mc::validated();
}
MC_CONC("T02/wait_means_done_two", 3, 4)
{
    hwn<2> h; pool p; auto a = std::make_shared<job>(), b = std::make_shared<job>([] { std::this_thread::yield(); }); p.start(a); p.start(b); p.wait(); MC_CHECK(a->ran == 1 && b->ran == 1, "wait-early", "wait returned before the tasks finished"); mc::validated();
}
MC_CONC("T02/two_waiters", 3, 4)
{
    hwn<1> h; pool p; std::atomic<bool> go{ false }; auto a = std::make_shared<job>([&] { spin([&] { return go.load(); }); }); p.start(a);
    std::thread o{ [&] { p.wait(); MC_CHECK(a->ran == 1, "wait-early", ""); } }, q{ [&] { p.wait(); MC_CHECK(a->ran == 1, "wait-early", ""); } };
    go = true; o.join(); q.join(); mc::validated();
}
MC_CONC("T02/two_waiters_stop", 3, 4)
{
    hwn<1> h; pool p; std::atomic<bool> go{ false }; auto a = std::make_shared<job>([&] { spin([&] { return go.load(); }); }), b = std::make_shared<job>(); p.start(a); p.start(b);
    std::thread o{ [&] { p.wait(); } }, q{ [&] { p.wait(); } }; go = true; p.stop(); o.join(); q.join(); MC_CHECK(p.stopped() && a->ran <= 1 && b->ran <= a->ran, "ran-once", ""); mc::validated();
}
MC_CONC("T02/wait_vs_submit", 3, 5)
{
    hwn<1> h; pool p; jobs js{ std::make_shared<job>(), std::make_shared<job>() }; p.start(js[0]);
    std::thread o{ [&] { p.start(js[1]); p.wait(); MC_CHECK(js[1]->ran == 1, "wait-early", ""); } }; p.wait(); MC_CHECK(js[0]->ran == 1, "wait-early", ""); o.join(); mc::validated();
}
MC_CONC("T02/destroy_waits", 4, 6)
{
    hwn<1> h; auto a = std::make_shared<job>(), b = std::make_shared<job>(); { pool p; p.start(a); p.start(b); } all_ran({ a, b }); mc::validated();
}
MC_CONC("T02/destroy_waits_two", 3, 4)
{
    hwn<2> h; auto a = std::make_shared<job>(), b = std::make_shared<job>(); { pool p; p.start(a); p.start(b); } all_ran({ a, b }); mc::validated();
}
MC_CONC("T02/destroy_unused", 4, 6) { hwn<2> h; { pool p; } mc::validated(); }
MC_CONC("T02/stop_unused", 3, 5) { hwn<2> h; pool p; p.stop(); MC_CHECK(p.stopped() && p.total_threads() == 0, "stopped", "workers left after stop: ", p.total_threads()); p.stop(); p.wait(); mc::validated(); }
MC_CONC("T02/stop_busy", 3, 4)
{
    hwn<2> h; jobs js; { pool p; for (int i = 0; i < 3; ++i) { js.push_back(std::make_shared<job>()); p.start(js.back()); } p.stop(); MC_CHECK(p.total_threads() == 0, "stopped", ""); int n = 0; for (auto& j : js) n += j->ran; MC_CHECK(n <= 3, "ran-once", ""); p.wait(); } for (auto& j : js) MC_CHECK(j->ran <= 1, "ran-once", ""); mc::validated();
}
MC_CONC("T02/stop_vs_submit", 3, 5)
{
    hwn<1> h; pool p; auto a = std::make_shared<job>(); std::thread o{ [&] { p.start(a); p.wait(); } }; p.stop(); o.join(); p.wait(); MC_CHECK(a->ran <= 1, "ran-once", ""); mc::validated();
}
MC_CONC("T02/stop_vs_run", 3, 5)
{   // a future obtained from a pool that is stopped is satisfied or broken, it does not hang for ever
    hwn<1> h; std::future<int> f; { pool p; std::thread o{ [&] { f = p.run<int>([] { return 5; }).first; } }; p.stop(); o.join(); }
    if (f.valid()) { try { int v = f.get(); MC_CHECK(v == 5, "future", ""); } catch (std::future_error const&) {} } mc::validated();
}
MC_CONC("T02/two_stops", 3, 5)
{
    hwn<1> h; pool p; auto a = std::make_shared<job>(); p.start(a); std::thread o{ [&] { p.stop(); MC_CHECK(p.stopped(), "stopped", ""); } }; p.stop(); MC_CHECK(p.stopped() && p.total_threads() == 0, "stopped", "stop returned while a worker was alive"); o.join(); mc::validated();
}
MC_CONC("T02/stop_broken_promise", 3, 4)
{
    hwn<1> h; std::future<int> f, g; { pool p; f = p.run<int>([] { return 5; }).first; g = p.run<int>([] { return 6; }).first; p.stop(); }
    auto r = [](std::future<int>& f) { try { return f.get(); } catch (std::future_error const&) { return -1; } }; int a = r(f), b = r(g); MC_CHECK((a == 5 || a == -1) && (b == 6 || b == -1), "future", ""); mc::validated();
}
MC_CONC("T02/no_wait_hw0", 1, 2) { conc::hw(0); pool p; p.wait(); bool t = false; try { p.start(std::make_shared<job>()); p.wait(); } catch (thread_pool::no_threads const&) { t = true; } (void)t; mc::validated(); }
// ---- T03
struct ordered { std::vector<int> order; std::mutex m; auto at(int i) { return std::make_shared<job>([this, i] { std::scoped_lock lk(m); order.push_back(i); }); } };
static std::vector<int> expected(std::vector<int> const& pr) { std::vector<int> ix(pr.size()); for (std::size_t i = 0; i < ix.size(); ++i) ix[i] = int(i); std::stable_sort(ix.begin(), ix.end(), [&](int a, int b) { return pr[a] > pr[b]; }); return ix; }
static std::string show(std::vector<int> const& v) { std::string s; for (auto e : v) s += std::to_string(e) + " "; return s; }
static void priorities(std::size_t n, bool two)
{
    std::vector<int> pr; { for (std::size_t i = 0; i < n; ++i) pr.push_back(int(mc::choose(3)) - 1); }
    conc::hw(two ? 2 : 1); ordered o; pool p; std::atomic<bool> go{ false }, end{ false };
    auto block = std::make_shared<job>([&] { spin([&] { return go.load(); }); }), other = std::make_shared<job>([&] { spin([&] { return end.load(); }); });
    p.start(block); if (two) p.start(other);
    std::shared_ptr<job> last; for (std::size_t i = 0; i < n; ++i) { p.start(o.at(int(i)), pr[i]); }
    (mc::choose(2) && two ? end : go) = true; std::atomic<bool> seen{ false };
    if (two) spin([&] { std::scoped_lock lk(o.m); return o.order.size() == n; });
    go = true; end = true; p.wait(); auto e = expected(pr); MC_TRACE("priorities ", show(pr), " ran in order ", show(o.order));
    MC_CHECK(o.order == e, "priority-order", "tasks of priorities ", show(pr), "ran in order ", show(o.order), "not ", show(e)); mc::validated();
}
MC_CONC("T03/one_worker", 2, 3) { priorities(3, false); }
MC_CONC("T03/one_worker_four", 1, 2) { priorities(4, false); }
MC_CONC("T03/one_worker_five", 0, 0) { priorities(mc::tier(4, 5), false); }
MC_CONC("T03/two_workers", 1, 2) { priorities(3, true); }
MC_CONC("T03/two_workers_four", 0, 0) { priorities(4, true); }
MC_CONC("T03/late_arrival", 2, 3)
{   // a task that arrives while others wait overtakes only those of lower priority
    hwn<1> h; ordered o; pool p; std::atomic<bool> go{ false }, go2{ false }, in{ false }; auto block = std::make_shared<job>([&] { spin([&] { return go.load(); }); }), mid = std::make_shared<job>([&] { in = true; spin([&] { return go2.load(); }); });
    p.start(block); p.start(o.at(0), 1); p.start(mid, 2); p.start(o.at(1), 0); go = true; spin([&] { return in.load(); }); p.start(o.at(2), 3); p.start(o.at(3), 1); p.start(o.at(4), 0); go2 = true; p.wait();
    MC_CHECK((o.order == std::vector<int>{ 2, 0, 3, 1, 4 }), "priority-order", "ran in order ", show(o.order)); mc::validated();
}
