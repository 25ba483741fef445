// @props E03
// @src src/task/timer.cpp src/task/timer_object.cpp src/task/async_task.cpp src/task/event.cpp src/task/thread.cpp src/task/waitable_event.cpp src/task/time_slice.cpp
// @src src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp src/core/uuid.cpp src/io/openssl.cpp src/app/module.cpp src/posix/app/posix_module.cpp
// @link -lboost_chrono -lboost_filesystem -lcrypto -ldl
// Timers against a reference timer on a virtual clock: every sequence of clock steps, polls and timer operations, with every
// handler program.
#include <neolib/task/async_task.hpp>
#include <neolib/task/timer.hpp>
#include <neolib/task/timer_object.hpp>
#include <neolib/task/time_slice.hpp>
#include "mc.hpp"
#include <memory>
#include <map>
using namespace neolib;
static bool sServices = (services::allocate_service_provider(), true);

static std::int64_t sNow = 0; static bool sVirtual = false;
extern "C" int clock_gettime(clockid_t, timespec*) noexcept;
namespace std::chrono::inline _V2
{   // the virtual clock takes the place of the library's
    steady_clock::time_point steady_clock::now() noexcept { if (sVirtual) return time_point{ duration{ sNow } }; timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point{ duration{ std::int64_t(t.tv_sec) * 1000000000 + t.tv_nsec } }; }
}
namespace
{
    struct boom {};
    struct context : lifetime<> {};
    struct test_task : async_task { using async_task::do_work; using async_task::cancel; };
    enum act { NONE, AGAIN, CANCEL_SELF, DESTROY_SELF, DISABLE_SELF, AGAIN_CANCEL, AGAIN_RESET, SET_DURATION, CANCEL_OTHER, DESTROY_OTHER, RESET_OTHER, NESTED_POLL, AGAIN_LATE_POLL, THROW, AGAIN_THROW, DESTROY_CONTEXT, DESTROY_THROW, ACTS };
    const char* actNames[] = { "nothing", "again", "cancel", "destroy itself", "disable", "again,cancel", "again,reset", "again,set_duration", "cancel other", "destroy other", "reset other", "poll", "again,time passes,poll", "throw", "again,throw", "destroy the context", "destroy itself,throw" };
    struct m_timer { bool exists = false, enabled = true, waiting = false, ctx = false; std::int64_t deadline = 0, duration = 0; bool programmed = false; };
    constexpr std::int64_t S = 1000000000;
    struct rig
    {
        std::unique_ptr<test_task> task = std::make_unique<test_task>(); std::unique_ptr<context> ctx = std::make_unique<context>();
        std::unique_ptr<callback_timer> t[2]; m_timer m[2]; int fired = 0, depth = 0, budget; int acts; bool taskAlive = true, ctxAlive = true;
        rig(int acts, int budget) : acts(acts), budget(budget) { sNow = 1000 * S; sVirtual = true; }
        ~rig() { sVirtual = false; }
        bool due(m_timer const& x) const { return x.exists && x.waiting && x.enabled && (!x.ctx || ctxAlive) && sNow >= x.deadline && taskAlive; }
        void arm(m_timer& x) { if (!taskAlive) return; x.enabled = true; x.waiting = true; x.deadline = sNow + x.duration; }
        void create(int i, int kind, std::int64_t d, bool wait)
        {
            auto cb = [this, i](callback_timer& which) { on_fire(i, which); }; std::chrono::duration<double> s{ double(d) / S };
            if (kind == 0) t[i] = std::make_unique<callback_timer>(*task, cb, s, wait); else t[i] = std::make_unique<callback_timer>(*task, *ctx, cb, s, wait);
            m[i] = {}; m[i].exists = true; m[i].ctx = kind == 1; m[i].duration = d; if (wait) arm(m[i]);
        }
        void destroy(int i) { t[i].reset(); m[i].exists = false; m[i].waiting = false; }
        void again(int i) { sync(); bool thrown = false; try { t[i]->again(); } catch (timer::already_waiting const&) { thrown = true; } if (taskAlive) { MC_CHECK(thrown == m[i].waiting, "already-waiting", "again() ", thrown ? "refused" : "accepted", " while ", m[i].waiting ? "waiting" : "not waiting"); } if (!thrown) arm(m[i]); }
        void cancel(int i) { t[i]->cancel(); m[i].waiting = false; }
        void reset(int i) { call([&] { t[i]->reset(); }, "reset"); m[i].waiting = false; arm(m[i]); }
        template <typename F> void call(F f, const char* what) { try { f(); } catch (timer::already_waiting const&) { mc::fail("already-waiting", mc::str(what, " threw already_waiting")); } }
        void set_duration(int i, std::int64_t d, bool now) { sync(); call([&] { t[i]->set_duration(std::chrono::duration<double>{ double(d) / S }, now); }, "set_duration"); m[i].duration = d; if (now && m[i].waiting) { m[i].waiting = false; arm(m[i]); } }
        void enable(int i, bool wait) { bool thrown = false; call([&] { try { t[i]->enable(wait); } catch (timer::already_enabled const&) { thrown = true; } }, "enable"); MC_CHECK(thrown == m[i].enabled, "already-enabled", ""); if (!thrown) { m[i].enabled = true; if (wait) arm(m[i]); } }
        void disable(int i) { bool thrown = false; try { t[i]->disable(); } catch (timer::already_disabled const&) { thrown = true; } MC_CHECK(thrown == !m[i].enabled, "already-disabled", ""); if (!thrown) { m[i].waiting = false; m[i].enabled = false; } }
        void sync() { for (int i : { 0, 1 }) if (m[i].exists && m[i].ctx && !ctxAlive) m[i].waiting = t[i]->waiting(); } // without its context a timer never fires, whether it waits does not matter
        void check()
        {
            sync();
            for (int i : { 0, 1 }) if (m[i].exists) { MC_CHECK(t[i]->enabled() == m[i].enabled && t[i]->disabled() != m[i].enabled, "enabled", i); if (taskAlive) MC_CHECK(t[i]->waiting() == m[i].waiting, "waiting", "timer ", i, " reports waiting ", t[i]->waiting()); MC_CHECK(std::abs(t[i]->duration().count() - double(m[i].duration) / S) < 1e-9, "duration", ""); }
        }
        void poll()
        {
            ++depth; bool thrown = false; int before = fired; bool did = false;
            try { did = task->do_work(); } catch (boom const&) { thrown = true; MC_TRACE("  the handler's exception came out"); }
            --depth; if (thrown) return; MC_CHECK(did || fired == before, "poll-result", did, " ", fired - before);
            for (int i : { 0, 1 }) MC_CHECK(!due(m[i]), "not-fired", "timer ", i, " was due at ", double(m[i].deadline) / S, ", polled at ", double(sNow) / S);
        }
        void on_fire(int i, callback_timer& which)
        {
            ++fired; mc::op(); MC_TRACE("  timer ", i, " fires at ", double(sNow) / S - 1000); MC_CHECK(m[i].exists && t[i].get() == &which, "fired-destroyed", i); MC_CHECK(due(m[i]), "fired-wrongly", "timer ", i, " waiting ", m[i].waiting, " enabled ", m[i].enabled, " due in ", double(m[i].deadline - sNow) / S, " context alive ", ctxAlive);
            m[i].waiting = false; if (budget == 0) return; int o = 1 - i; int a = int(mc::choose(acts)); if (a != NONE) --budget; MC_TRACE("  handler does: ", actNames[a]);
            switch (a)
            {
            case NONE: break; case AGAIN: again(i); break; case CANCEL_SELF: cancel(i); break; case DESTROY_SELF: destroy(i); break; case DISABLE_SELF: disable(i); break;
            case AGAIN_CANCEL: again(i); cancel(i); break; case AGAIN_RESET: again(i); reset(i); break; case SET_DURATION: again(i); set_duration(i, 2 * S, true); break;
            case CANCEL_OTHER: if (m[o].exists) cancel(o); break; case DESTROY_OTHER: if (m[o].exists) destroy(o); break; case RESET_OTHER: if (m[o].exists) reset(o); break;
            case NESTED_POLL: if (depth < 3) poll(); break; case AGAIN_LATE_POLL: again(i); sNow += 2 * S; if (depth < 3) poll(); break; case THROW: throw boom{}; case AGAIN_THROW: again(i); throw boom{};
            case DESTROY_CONTEXT: ctx.reset(); ctxAlive = false; break; case DESTROY_THROW: destroy(i); throw boom{};
            }
        }
        void destroy_task() { task.reset(); taskAlive = false; for (auto& x : m) x.waiting = false; }
        bool step(int o)
        {
            int i = o % 2; mc::op();
            #define need(c) if (!(c)) return false
            switch (o / 2)
            {
            case 0: need(taskAlive); if (o == 0) { MC_TRACE("1 s passes, poll"); sNow += S; } else MC_TRACE("poll"); poll(); break;
            case 1: need(m[i].exists); MC_TRACE("again ", i); again(i); break;
            case 2: need(m[i].exists && m[i].waiting); MC_TRACE("cancel ", i); cancel(i); break;
            case 3: need(m[i].exists); MC_TRACE("reset ", i); reset(i); break;
            case 4: need(m[i].exists); MC_TRACE("set_duration ", i); set_duration(i, m[i].duration == S ? 2 * S : S, true); break;
            case 5: need(m[i].exists && m[i].enabled); MC_TRACE("disable ", i); disable(i); break;
            case 6: need(m[i].exists && !m[i].enabled); { bool w = mc::choose(2); MC_TRACE("enable ", i, w); enable(i, w); } break;
            case 7: need(m[i].exists); MC_TRACE("destroy ", i); destroy(i); break;
            case 8: need(taskAlive && !m[i].exists && ctxAlive); { int k = int(mc::choose(2)); bool w = mc::choose(2); MC_TRACE("create ", i, k ? " with context" : "", w ? " waiting" : ""); create(i, k, S, w); } break;
            case 9: if (o == 18) { need(ctxAlive); MC_TRACE("destroy context"); ctx.reset(); ctxAlive = false; } else { need(taskAlive); MC_TRACE("destroy task"); destroy_task(); } break;
            case 10: if (o == 20) { need(m[0].exists && m[1].exists); sync(); MC_TRACE("0 = 1"); call([&] { static_cast<timer&>(*t[0]) = *t[1]; }, "operator="); m[0].duration = m[1].duration; m[0].enabled = m[1].enabled; m[0].waiting = false; if (m[1].waiting) arm(m[0]); }
                else { need(m[0].exists); sync(); MC_TRACE("again_if 0"); call([&] { t[0]->again_if(); }, "again_if"); if (!m[0].waiting) arm(m[0]); } break;
            case 11: if (o == 22) { MC_TRACE("2 s pass"); sNow += 2 * S; } else { need(taskAlive); MC_TRACE("1 s less 1 ns passes, poll"); sNow += S - 1; poll(); } break;
            }
            check(); return true;
        }
        void finish() { if (taskAlive) { for (int k = 0; k < 3; ++k) { sNow += 3 * S; poll(); } check(); } t[0].reset(); t[1].reset(); if (mc::choose(2)) { task.reset(); ctx.reset(); } else { ctx.reset(); task.reset(); } mc::validated(); }
    };
    void sequences(int depth, int acts, int budget, bool second)
    {
        rig r{ acts, budget }; r.create(0, mc::choose(2), S, true); if (second) r.create(1, 0, 2 * S, true); r.check();
        for (int k = 0; k < depth; ++k) if (!r.step(int(mc::choose(24)))) throw mc::prune{};
        r.finish();
    }
}
MC_SCENARIO("one_timer") { sequences(mc::tier(4, 5), 1, 0, false); }
MC_SCENARIO("two_timers") { sequences(mc::tier(4, 5), 1, 0, true); }
MC_SCENARIO("handlers") { sequences(mc::tier(2, 3), ACTS, 2, true); }
MC_SCENARIO("due_together")
{   // both timers due in the same poll, any handlers, twice
    rig r{ ACTS, mc::tier(3, 4) }; r.create(0, mc::choose(2), S, true); r.create(1, mc::choose(2), S, true); for (int k = 0; k < 2; ++k) { sNow += 2 * S; MC_TRACE("poll"); r.poll(); r.check(); } r.finish();
}
// Several subscribers of one timer object, and the service's own interface.
MC_SCENARIO("timer_object")
{
    struct on { on() { sNow = 1000 * S; sVirtual = true; } ~on() { sVirtual = false; } } o; test_task task; auto& service = task.timer_service(); ref_ptr<i_timer_object> x{ service.create_timer_object() }; int n[3] = {}; int acts[3]; ref_ptr<i_timer_subscriber> s[3]; bool gone[3] = {};
    for (int i = 0; i < 3; ++i) { acts[i] = int(mc::choose(4)); s[i] = x->async_wait([&, i]() { MC_CHECK(!gone[i], "fired-unsubscribed", i); ++n[i]; if (acts[i] > 0 && n[i] == 1 && !gone[acts[i] - 1]) { gone[acts[i] - 1] = true; x->unsubscribe(*s[acts[i] - 1]); } }); }
    MC_TRACE("subscribers unsubscribe ", acts[0], acts[1], acts[2]); x->expires_from_now(std::chrono::seconds(1)); MC_CHECK(!service.poll() && !n[0] && !n[1] && !n[2], "fired-early", ""); sNow += S; bool did = service.poll(); MC_CHECK(did, "poll-result", "");
    for (int i = 0; i < 3; ++i) { MC_CHECK(gone[i] || n[i] == 1, "not-fired", i, " ", n[i]); MC_CHECK(s[i]->attached() != gone[i], "attached", ""); if (gone[i]) { bool thrown = false; try { x->unsubscribe(*s[i]); } catch (i_timer_object::subscriber_not_found const&) { thrown = true; } MC_CHECK(thrown, "unsubscribe-twice", ""); } }
    did = service.poll(); MC_CHECK(!did && n[0] <= 1 && n[1] <= 1 && n[2] <= 1, "fired-again", "");
    if (mc::choose(2)) { x->expires_from_now(std::chrono::seconds(1)); x->cancel(); sNow += 5 * S; MC_CHECK(!service.poll() && !x->poll(), "fired-cancelled", ""); }
    if (mc::choose(2)) { service.remove_timer_object(*x); x->expires_from_now(std::chrono::seconds(1)); sNow += 5 * S; MC_CHECK(!service.poll(), "fired-removed", ""); }
    for (auto& y : s) y.reset(); mc::validated();
}
// Polls nested in handlers, repeatedly: every subscriber of an object that expired is called once for each expiry.
MC_SCENARIO("nested_objects")
{
    struct on { on() { sNow = 1000 * S; sVirtual = true; } ~on() { sVirtual = false; } } o; test_task task; auto& service = task.timer_service(); ref_ptr<i_timer_object> x[2] = { service.create_timer_object(), service.create_timer_object() };
    int n[2][3] = {}; int expired[2] = {}; int depth = 0; ref_ptr<i_timer_subscriber> s[2][3]; int subs = mc::tier(2, 3); int budget = mc::tier(4, 5);
    std::function<void(int)> fire = [&](int k) { x[k]->expires_from_now(std::chrono::seconds(0)); ++expired[k]; int before[3] = { n[k][0], n[k][1], n[k][2] }; ++depth; bool did = x[k]->poll(); --depth; MC_CHECK(did, "poll-result", ""); for (int i = 0; i < subs; ++i) MC_CHECK(n[k][i] > before[i], "not-fired", "object ", k, " subscriber ", i); };
    for (int k : { 0, 1 }) for (int i = 0; i < subs; ++i) s[k][i] = x[k]->async_wait([&, k, i]() { mc::op(); ++n[k][i]; if (budget == 0 || depth == 3) return; auto a = mc::choose(3); if (a == 0) return; --budget; MC_TRACE("  subscriber ", i, " of ", k, " polls ", a == 1 ? 1 - k : k); fire(a == 1 ? 1 - k : k); });
    for (int r = 0; r < 3; ++r) { MC_TRACE("poll 0"); fire(0); }
    for (int k : { 0, 1 }) for (int i = 0; i < subs; ++i) MC_CHECK(n[k][i] == expired[k], "fired-count", "object ", k, " subscriber ", i, " called ", n[k][i], " times for ", expired[k], " expiries");
    for (int k : { 0, 1 }) for (int i = 0; i < subs; ++i) s[k][i].reset(); mc::validated();
}
// a task that timers came and went on is as it was: nothing of them is left behind
MC_SCENARIO("left_behind")
{
    sNow = 1000 * S; sVirtual = true; struct off { ~off() { sVirtual = false; } } o; auto task = std::make_unique<test_task>(); context ctx; int fired = 0;
    auto const n = mc::choose(2) + 1, first = mc::choose(12); std::uint32_t plan[2]; for (std::uint32_t i = 0; i < n; ++i) plan[i] = i ? mc::choose(12) : first; auto const polled = mc::choose(3), order = mc::choose(2);
    auto round = [&] {
        std::unique_ptr<callback_timer> t[2]; for (std::uint32_t i = 0; i < n; ++i) { bool const wait = plan[i] & 1; auto cb = [&, i](callback_timer& x) { ++fired; if (plan[i] % 12 >= 6) x.again(); }; if (plan[i] % 3 == 2) t[i] = std::make_unique<callback_timer>(*task, ctx, cb, std::chrono::milliseconds{ 5 }, wait); else t[i] = std::make_unique<callback_timer>(*task, cb, std::chrono::milliseconds{ 5 }, wait); if (plan[i] % 3 == 1 && t[i]->waiting()) { t[i]->cancel(); t[i]->again(); } }
        for (std::uint32_t p = 0; p < polled; ++p) { sNow += 10000000; task->do_work(); } if (order) t[0].reset(); t[1].reset(); t[0].reset(); task->do_work(); };
    round(); round(); auto const before = mc::live_blocks(); for (int i = 0; i < 4; ++i) round(); auto const after = mc::live_blocks(); MC_CHECK(after <= before, "left-behind", after - before, " blocks of memory after four rounds"); mc::op(); mc::validated();
}
