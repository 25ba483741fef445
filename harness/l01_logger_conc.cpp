// @props L01
// @engine conc
// @src src/task/event.cpp src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp
// Loggers shared between threads, with and without a logging thread: every message that passes is written once, whole
// and in the order of its thread, under all interleavings up to the bound.
#include <neolib/app/logger.hpp>
#include "conc.hpp"
#include <algorithm>
using namespace neolib; namespace lg = neolib::logger; typedef std::string S;
static bool sServices = (services::allocate_service_provider(), services::service<i_event_system>(), lg::client_logger_buffers::instance().buffer() << "", true);
namespace
{
    template <std::size_t I> struct the_log : lg::logger<I>
    {
        typedef lg::logger<I> base; S& out; std::function<void()> inCommit; the_log(S& out) : out{ out } {} ~the_log() { base::finalize(); } using base::commit; using base::finalize;
        void commit(typename base::buffer_t const& b) override { out += b; if (inCommit) inCommit(); }
    };
    typedef the_log<0> L;
    S only(S const& all, char who) { S r; for (std::size_t i = 0; i + 2 < all.size(); i += 3) if (all[i] == who) r += all.substr(i, 3); return r; }
    // out consists of whole messages: a letter, a digit and a point
    void whole(S const& out, std::size_t n) { MC_CHECK(out.size() == 3 * n, "lost", "'", out, "' has ", out.size() / 3, " messages of ", n); for (std::size_t i = 0; i < out.size(); i += 3) MC_CHECK(out[i] >= 'a' && out[i + 1] >= '0' && out[i + 1] <= '9' && out[i + 2] == '.', "torn", "'", out, "'"); }
    void say(lg::i_logger& l, const char* a, int n) { l << a << n << "." << std::flush; }
    void spin(std::function<bool()> c) { while (!c()) std::this_thread::yield(); }
}
MC_CONC("one_thread", 3, 5) { S out; { L l{ out }; l.create_logging_thread(); say(l, "a", 1); say(l, "a", 2); } MC_CHECK(out == "a1.a2.", "lost", out); mc::validated(); }
MC_CONC("two_threads", 2, 4) { S out; { L l{ out }; l.create_logging_thread(); std::thread o{ [&] { say(l, "b", 1); say(l, "b", 2); } }; say(l, "a", 1); say(l, "a", 2); o.join(); } whole(out, 4); MC_CHECK(only(out, 'a') == "a1.a2." && only(out, 'b') == "b1.b2.", "order", out); mc::validated(); }
MC_CONC("thread_ends", 3, 4) { S out; { L l{ out }; l.create_logging_thread(); std::thread o{ [&] { say(l, "b", 1); } }; o.join(); std::thread p{ [&] { say(l, "c", 1); } }; say(l, "a", 1); p.join(); } whole(out, 3); MC_CHECK(only(out, 'a') == "a1." && only(out, 'b') == "b1." && only(out, 'c') == "c1.", "order", out); mc::validated(); }
// after waiting, what this thread logged has been written
MC_CONC("wait", 3, 5) { S out; { L l{ out }; l.create_logging_thread(); say(l, "a", 1); l.wait(); MC_CHECK(out == "a1.", "wait", "'", out, "'"); say(l, "a", 2); l.commit(); l.wait(); MC_CHECK(out == "a1.a2.", "wait", "'", out, "'"); } mc::validated(); }
MC_CONC("no_logging_thread", 3, 5) { S out; { L l{ out }; std::thread o{ [&] { say(l, "b", 1); say(l, "b", 2); } }; say(l, "a", 1); o.join(); MC_CHECK(out.empty(), "early", out); l.commit(); whole(out, 3); MC_CHECK(only(out, 'b') == "b1.b2.", "order", out); say(l, "a", 2); l.wait(); } whole(out, 4); MC_CHECK(only(out, 'a') == "a1.a2.", "order", out); mc::validated(); }
MC_CONC("two_committers", 3, 4) { S out; { L l{ out }; std::thread o{ [&] { say(l, "b", 1); l.commit(); say(l, "b", 2); l.commit(); } }; say(l, "a", 1); l.commit(); say(l, "a", 2); o.join(); } whole(out, 4); MC_CHECK(only(out, 'a') == "a1.a2." && only(out, 'b') == "b1.b2.", "order", out); mc::validated(); }
MC_CONC("commit_after", 3, 4) { S out; { L l{ out }; std::atomic<bool> done{ false }; std::thread o{ [&] { say(l, "b", 1); done = true; l.commit(); } }; spin([&] { return done.load(); }); l.commit(); o.join(); MC_CHECK(out == "b1.", "lost", out); } mc::validated(); }
MC_CONC("created_late", 3, 4) { S out; { L l{ out }; std::thread o{ [&] { say(l, "b", 1); say(l, "b", 2); } }; say(l, "a", 1); MC_CHECK(!l.has_logging_thread(), "logging thread", ""); l.create_logging_thread(); MC_CHECK(l.has_logging_thread(), "logging thread", ""); bool threw = false; try { l.create_logging_thread(); } catch (lg::i_logger::logging_thread_already_created const&) { threw = true; } MC_CHECK(threw, "created twice", ""); o.join(); } whole(out, 3); MC_CHECK(only(out, 'b') == "b1.b2.", "order", out); mc::validated(); }
MC_CONC("finalize", 3, 4) { S out; { L l{ out }; l.create_logging_thread(); say(l, "a", 1); l.finalize(); MC_CHECK(out == "a1." && !l.has_logging_thread(), "finalize", "'", out, "'"); l.finalize(); say(l, "a", 2); l.commit(); MC_CHECK(out == "a1.a2.", "finalize", "'", out, "'"); } mc::validated(); }
MC_CONC("copies", 2, 3)
{
    S out, copy; { the_log<1> c{ copy }; c.create_logging_thread(); { L l{ out }; l.create_logging_thread(); l.copy_to(c); l.set_filter_severity(lg::severity::Error); std::thread o{ [&] { say(l << lg::severity::Error, "b", 1); say(l << lg::severity::Info, "b", 2); } }; say(l, "a", 1); o.join(); } } whole(copy, 3); MC_CHECK(out == "b1." && only(copy, 'b') == "b1.b2." && only(copy, 'a') == "a1.", "copies", out, " ", copy); mc::validated();
}
MC_CONC("settings", 2, 3)
{   // the severity and category of a message are those of its thread; filters may change at any time
    S out; { L l{ out }; l.create_logging_thread(); l.register_category(1, "one"); l.disable_category(1); std::thread o{ [&] { l << lg::category{ 1 } << lg::severity::Error; say(l, "b", 1); l << lg::category{ 2 } << lg::severity::Debug; say(l, "b", 2); } }; say(l, "a", 1); l.set_filter_severity(lg::severity::Warning); say(l, "a", 2); say(l << lg::severity::Fatal, "a", 3); l << lg::severity::Info; o.join(); } MC_CHECK(out == "a1.a3.", "filters", out); mc::validated();
}
MC_CONC("line_ids", 2, 3) { S out; { L l{ out }; lg::formatter f{ [](lg::i_logger const& l, i_string const& m, i_string& o) { o = "x" + std::to_string(l.line_id()) + "."; } }; l.set_formatter(f); l.create_logging_thread(); std::thread o{ [&] { say(l, "b", 1); } }; say(l, "a", 1); o.join(); MC_CHECK(l.line_id() == 3, "line id", l.line_id()); } MC_CHECK(out == "x1.x2." || out == "x2.x1.", "line id", out); mc::validated(); }
