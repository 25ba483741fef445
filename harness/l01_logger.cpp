// @props L01
// @src src/task/event.cpp src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp
// Loggers in one thread: every history of messages, severities, categories, filters, formatters, copies, handlers and
// commits over three loggers, as a state space, against a reference that says what is written when.
#include <map>
#include <algorithm>
#include <neolib/app/logger.hpp>
#include <neolib/app/ostream_logger.hpp>
#include "mc.hpp"
using namespace neolib; namespace lg = neolib::logger; typedef std::string S; using mc::choose; typedef lg::severity sev;
namespace
{
    struct owner { virtual ~owner() {} virtual lg::i_logger& get() = 0; virtual void finalize() = 0; };
    template <std::size_t I> struct the_log : lg::logger<I>, owner
    {
        typedef lg::logger<I> base; S& out; std::size_t& commits; the_log(S& out, std::size_t& commits) : out{ out }, commits{ commits } {} ~the_log() { base::finalize(); } using base::commit; void finalize() override { base::finalize(); } lg::i_logger& get() override { return *this; }
        void commit(typename base::buffer_t const& b) override { out += b; ++commits; }
    };
    bool warm() { services::allocate_service_provider(); services::service<i_event_system>(); S o; std::size_t n = 0; S const t(200, 'x'); the_log<0> a{ o, n }; the_log<1> b{ o, n }; the_log<2> c{ o, n }; lg::formatter f{ [&](lg::i_logger const&, i_string const&, i_string& r) { r = t; } };
        for (lg::i_logger* l : { (lg::i_logger*)&a, (lg::i_logger*)&b, (lg::i_logger*)&c }) { *l << t << std::flush; l->set_formatter(f); *l << t << std::endl; l->commit(); } return true; }
    bool sWarm = warm();
    struct model
    {
        sev now = sev::Info, filter = sev::Info; int category = 0; std::map<int, bool> categories; bool formatted = false, heard = false; std::uint64_t line = 1; S pending, out, events; std::vector<model*> copies; S kept;
        void set(sev s) { now = s; for (auto c : copies) c->set(s); }
        void set(int c) { category = c; for (auto o : copies) o->set(c); }
        void add(int c) { categories[c] = true; for (auto o : copies) o->add(c); }
        void enable(int c, bool on) { if (categories.count(c)) categories[c] = on; for (auto o : copies) o->enable(c, on); }
        bool enabled(int c) const { auto i = categories.find(c); return i != categories.end() && i->second; }
        void say(S const& m)
        {
            if (now >= filter && (!categories.count(category) || categories[category])) { S const t = formatted ? "<" + std::to_string(line) + ":" + m + ">" : m; pending += t; if (heard) events += "{" + t + "}"; ++line; }
            for (auto c : copies) c->say(m);
        }
        void commit() { out += pending; pending.clear(); }
        void finalize() { commit(); }
    };
    struct world
    {
        S out[3]; std::size_t commits[3] = {}; S events[3]; lg::formatter f{ [](lg::i_logger const& l, i_string const& m, i_string& o) { o = "<" + std::to_string(l.line_id()) + ":" + m.to_std_string() + ">"; } };
        std::unique_ptr<the_log<0>> a{ new the_log<0>{ out[0], commits[0] } }; std::unique_ptr<the_log<1>> b{ new the_log<1>{ out[1], commits[1] } }; std::unique_ptr<the_log<2>> c{ new the_log<2>{ out[2], commits[2] } }; model m[3]; std::unique_ptr<sink> sinks[3]; int n;
        lg::i_logger& l(int i) { return i == 0 ? a->get() : i == 1 ? b->get() : c->get(); }
        world(int n) : n{ n } { for (int i = 0; i < 3; ++i) l(i) << sev::Info << lg::category{ 0 }; }
        ~world() { for (auto& s : sinks) s = nullptr; }
        void check()
        {
            for (int i = 0; i < n; ++i)
            {
                auto& x = l(i); auto& r = m[i];
                MC_CHECK(out[i] == r.out, "written", "logger ", i, ": '", out[i], "' expected '", r.out, "'"); MC_CHECK(events[i] == r.events, "events", "logger ", i, ": ", events[i], " expected ", r.events);
                MC_CHECK(x.line_id() == r.line, "line id", "logger ", i, ": ", x.line_id(), " expected ", r.line); MC_CHECK(x.filter_severity() == r.filter, "filter", i); MC_CHECK(!x.has_logging_thread(), "logging thread", i);
                for (int k = 0; k < 3; ++k) MC_CHECK(x.category_enabled(lg::category_id(k)) == r.enabled(k) && x.category_enabled(k) == r.enabled(k), "category", "logger ", i, " category ", k);
                MC_CHECK(x.has_formatter() == r.formatted, "formatter", i); try { auto& g = x.formatter(); MC_CHECK(r.formatted && &g == &f, "formatter", i); } catch (lg::i_logger::no_formatter const&) { MC_CHECK(!r.formatted, "formatter", "none found: ", i); }
            }
        }
        std::uint64_t hash() const
        {
            std::uint64_t h = n; for (int i = 0; i < n; ++i) { auto& r = m[i]; mc::hash_combine(h, int(r.now)); mc::hash_combine(h, int(r.filter)); mc::hash_combine(h, r.category); for (auto& k : r.categories) mc::hash_combine(h, k.first * 2 + k.second); mc::hash_combine(h, r.formatted * 2 + r.heard + 4 * (r.line > 2)); mc::hash_combine(h, r.pending); for (auto c : r.copies) mc::hash_combine(h, int(c - m)); mc::hash_combine(h, 99); } return h;
        }
        // one step on logger i
        void step(int i, std::uint32_t kinds)
        {
            auto& x = l(i); auto& r = m[i];
            switch (choose(kinds))
            {
            case 0: { auto const t = choose(3); S const s = t == 0 ? "" : t == 1 ? "ab42" : "\n"; if (r.pending.size() > 5) throw mc::prune{}; MC_TRACE(i, " says '", s, "'"); if (t == 0) x << std::flush; else if (t == 1) x << "a" << 'b' << 42 << std::flush; else x << std::endl; r.say(s); break; }
            case 1: { static sev const ss[] = { sev::Debug, sev::Info, sev::Fatal }; auto s = ss[choose(3)]; MC_TRACE(i, " severity ", int(s)); x << s; r.set(s); break; }
            case 2: x.commit(); r.commit(); MC_TRACE(i, " commits"); break;
            case 3: { static sev const ss[] = { sev::Trace, sev::Info, sev::Error }; auto s = ss[choose(3)]; MC_TRACE(i, " filter ", int(s)); x.set_filter_severity(s); r.filter = s; break; }
            case 4: { int k = choose(3); MC_TRACE(i, " category ", k); x << lg::category{ k }; r.set(k); break; }
            case 5: MC_TRACE(i, " register 1"); x.register_category(1, "one"); r.add(1); break;
            case 6: { int k = choose(2) + 1; bool on = choose(2); MC_TRACE(i, on ? " enables " : " disables ", k); if (on) x.enable_category(k); else x.disable_category(k); r.enable(k, on); break; }
            case 7: if (r.formatted) x.clear_formatter(); else x.set_formatter(f); r.formatted = !r.formatted; MC_TRACE(i, " formatter ", r.formatted); break;
            case 8: if (sinks[i]) sinks[i] = nullptr; else { sinks[i] = std::make_unique<sink>(); *sinks[i] += x.new_log_message([this, i](i_string const& s) { events[i] += "{" + s.to_std_string() + "}"; }); } r.heard = !!sinks[i]; MC_TRACE(i, " heard ", r.heard); break;
            case 9: if (choose(2)) { x.reset_line_id(7); r.line = 7; } else { x.reset_line_id(); r.line = 1; } MC_TRACE(i, " line ", r.line); break;
            case 10: { int o = i == 0 ? 1 + choose(n - 1) : i == 1 && n == 3 ? 2 : -1; if (o < 0 || o >= n) throw mc::prune{}; auto p = std::find(r.copies.begin(), r.copies.end(), &m[o]); if (p == r.copies.end()) { x.copy_to(l(o)); r.copies.push_back(&m[o]); } else { x.cancel_copy_to(l(o)); r.copies.erase(p); } MC_TRACE(i, " copies to ", o, " ", r.copies.size()); break; }
            }
        }
        void end() { for (int i = 0; i < 3; ++i) m[i].finalize(); for (auto& s : sinks) s = nullptr; a = nullptr; b = nullptr; c = nullptr; for (int i = 0; i < n; ++i) MC_CHECK(out[i] == m[i].out, "finalize", "logger ", i, ": '", out[i], "' expected '", m[i].out, "'"); }
    };
}
// every history over one, two and three loggers (0 copies to 1 and 2, 1 to 2)
MC_STATESPACE("one_logger", 6, 8) { world w{ 1 }; for (;;) { w.step(0, 10); mc::op(); w.check(); mc::checkpoint(w.hash()); } }
MC_STATESPACE("two_loggers", 4, 5) { world w{ 2 }; for (;;) { w.step(int(choose(2)), 11); mc::op(); w.check(); mc::checkpoint(w.hash()); } }
MC_STATESPACE("three_loggers", 3, 4) { world w{ 3 }; for (;;) { w.step(int(choose(3)), 11); mc::op(); w.check(); mc::checkpoint(w.hash()); } }
// every short history without leaving out any for its state, with the end of the loggers
MC_SCENARIO_S("finalize", 3) { world w{ 2 }; if (choose(2)) { w.l(0).copy_to(w.l(1)); w.m[0].copies.push_back(&w.m[1]); } int const d = mc::tier(3, 4); for (int i = 0; i < d; ++i) { w.step(int(choose(2)), 5); mc::op(); } w.check(); w.end(); mc::validated(); }
// loggers that write to streams: the stream has what was committed, flushed
namespace
{
    struct buf : std::stringbuf { int syncs = 0; int sync() override { ++syncs; return std::stringbuf::sync(); } };
}
MC_SCENARIO_S("ostream", 3)
{
    buf b; std::ostream o{ &b }; S expected, pending; int const d = mc::tier(5, 7);
    { lg::ostream_logger<3> l{ o }; l << sev::Info; for (int i = 0; i < d; ++i) { switch (choose(4)) { case 0: l << "m" << i << std::endl; pending += "m" + std::to_string(i) + "\n"; break; case 1: static_cast<lg::i_logger&>(l).commit(); expected += pending; if (!pending.empty()) MC_CHECK(b.syncs > 0, "flush", i); pending.clear(); b.syncs = 0; break; case 2: l << sev::Debug << "no" << std::flush << sev::Info; break; case 3: l.finalize(); expected += pending; pending.clear(); break; } mc::op(); MC_CHECK(b.str() == expected, "ostream", "'", b.str(), "' expected '", expected, "'"); } }
    expected += pending; MC_CHECK(b.str() == expected, "ostream", "'", b.str(), "' expected '", expected, "'"); mc::validated();
}
