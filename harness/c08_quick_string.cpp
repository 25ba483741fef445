// @props C08
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// quick_string against std::string: every sequence of operations on two quick strings that own or view their
// characters, as a state space; after each operation every const member is compared with std::string for every
// needle, position and length of a small universe. Viewed characters must never change.
#include "seqcheck.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/quick_string.hpp>
#include <neolib/core/string.hpp>
#include <sstream>
#include <set>
using mc::choose; typedef neolib::quick_string Q;
namespace
{
    constexpr auto npos = std::string::npos;
    const char* const needles[] = { "", "a", "b", "ab", "ba", "aab" };
    char const source[] = "abbaab"; std::string const sourceCopy = source;
    int sign(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
    template <typename F, typename G> void same(F f, G g, const char* what, std::string const& m, std::string const& w, std::size_t p = npos, std::size_t n = npos)
    {
        bool tf = false, tg = false; decltype(f()) rf{}; decltype(g()) rg{};
        try { rf = f(); } catch (std::out_of_range const&) { tf = true; } try { rg = g(); } catch (std::out_of_range const&) { tg = true; }
        MC_CHECK(tf == tg, what, "throws differently: ", m, " ", w, " ", p, " ", n, tf ? " (threw)" : " (did not throw)"); if (!tf) MC_CHECK(rf == rg, what, m, " ", w, " ", p, " ", n);
    }
    void check(Q const& q, std::string const& m, const char* who)
    {
        bool const view = q.is_view();
        MC_CHECK(q.size() == m.size() && q.length() == m.size() && q.empty() == m.empty(), "size", who, q.size(), m);
        MC_CHECK(q.to_std_string() == m && q.to_std_string_view() == m && std::string(q.data(), q.size()) == m && std::string(q.begin(), q.end()) == m && std::string(q.cbegin(), q.cend()) == m && static_cast<std::string>(q) == m, "content", who, ": ", q.to_std_string(), " expected ", m);
        MC_CHECK(std::string(q.rbegin(), q.rend()) == std::string(m.rbegin(), m.rend()) && std::string(q.crbegin(), q.crend()) == std::string(m.rbegin(), m.rend()), "reverse", who);
        for (std::size_t i = 0; i <= m.size() + 1; ++i) { if (i < m.size()) MC_CHECK(q[i] == m[i], "index", who); same([&] { return q.at(i); }, [&] { return m.at(i); }, "at", m, "", i); } if (!m.empty()) MC_CHECK(q.back() == m.back(), "back", who);
        std::ostringstream o; o << q; MC_CHECK(o.str() == m, "output", who); MC_CHECK(hash_value(q) == hash_value(Q{ m }), "hash", who); neolib::string ns{ q }; MC_CHECK(ns.to_std_string() == m, "to string", who);
        static std::set<std::pair<std::string, bool>> exhausted;           // const members depend on value and representation only
        if (!exhausted.emplace(m, view).second) { MC_CHECK(q.find('b') == m.find('b') && q.compare(m) == 0, "find", m); MC_CHECK(source == sourceCopy, "viewed", who, ": the viewed characters were modified"); return; }
        std::size_t const limits[] = { 0, 1, 2, 3, 5, npos };
        for (auto p : limits) for (auto n : limits) { same([&] { return q.substr(p, n); }, [&] { return m.substr(p, n); }, "substr", m, "", p, n); same([&] { char b[16] = {}; auto r = q.copy(b, std::min<std::size_t>(n, 15), p); return std::string(b, r); }, [&] { char b[16] = {}; auto r = m.copy(b, std::min<std::size_t>(n, 15), p); return std::string(b, r); }, "copy", m, "", p, n);
            same([&] { return Q(q, p, n).to_std_string(); }, [&] { return std::string(m, p, n); }, "substring", m, "", p, n); }
        for (auto w : needles)
        {
            std::string const s{ w }; Q const qs{ w }; Q const qo{ s }; auto const len = s.size();
            MC_CHECK(q.starts_with(w) == m.starts_with(w) && q.starts_with(std::string_view{ s }) == m.starts_with(s), "starts_with", m, w);
            MC_CHECK((q == qs) == (m == s) && (q == qo) == (m == s) && (q != qs) == (m != s) && (q < qs) == (m < s) && (qs < q) == (s < m) && (q <= qo) == (m <= s) && (q > qo) == (m > s) && (q >= qs) == (m >= s), "compare", m, " ", w);
            MC_CHECK(sign(q.compare(qs)) == sign(m.compare(s)) && sign(q.compare(s)) == sign(m.compare(s)) && sign(q.compare(w)) == sign(m.compare(w)), "compare", m, " ", w);
            MC_CHECK((q + qs).to_std_string() == m + s && q + s == m + s && q + w == m + w && s + q == s + m && w + q == w + m && q + 'c' == m + 'c' && 'c' + q == 'c' + m, "plus", m, " ", w);
            for (auto p : limits)
            {
#define FAMILY(f) same([&] { return q.f(qs, p); }, [&] { return m.f(s, p); }, #f, m, s, p); same([&] { return q.f(s, p); }, [&] { return m.f(s, p); }, #f, m, s, p); same([&] { return q.f(w, p); }, [&] { return m.f(w, p); }, #f, m, s, p); \
                for (std::size_t n = 0; n <= len; ++n) same([&] { return q.f(w, p, n); }, [&] { return m.f(w, p, n); }, #f, m, s, p, n); if (len) same([&] { return q.f(w[0], p); }, [&] { return m.f(w[0], p); }, #f, m, s, p);
                FAMILY(find) FAMILY(rfind) FAMILY(find_first_of) FAMILY(find_last_of) FAMILY(find_first_not_of) FAMILY(find_last_not_of)
                for (auto n : limits) { same([&] { return sign(q.compare(p, n, s)); }, [&] { return sign(m.compare(p, n, s)); }, "compare", m, s, p, n); same([&] { return sign(q.compare(p, n, w)); }, [&] { return sign(m.compare(p, n, w)); }, "compare", m, s, p, n); same([&] { return sign(q.compare(p, n, w, len)); }, [&] { return sign(m.compare(p, n, w, len)); }, "compare", m, s, p, n); same([&] { return sign(q.compare(p, n, s, 1, 1)); }, [&] { return sign(m.compare(p, n, s, 1, 1)); }, "compare", m, s, p, n); }
            }
            MC_CHECK(q.find(w) == m.find(w) && q.rfind(w) == m.rfind(w) && q.find_first_of(w) == m.find_first_of(w) && q.find_last_of(w) == m.find_last_of(w) && q.find_first_not_of(w) == m.find_first_not_of(w) && q.find_last_not_of(w) == m.find_last_not_of(w), "find", m, w);
        }
        MC_CHECK(q.is_view() == view, "view", who, ": a const member turned a view into an owner"); Q c{ q }; MC_CHECK(std::string(c.c_str()) == m && c.c_str()[m.size()] == 0 && !c.is_view() && q.is_view() == view, "c_str", who);
        MC_CHECK(source == sourceCopy, "viewed", who, ": the viewed characters were modified");
    }
}
MC_STATESPACE("quick_string", 5, 30)
{
    mc::holder<Q> h0, h1; std::string m[2]; auto const cap = std::size_t(mc::tier(3, 4));
    for (;;)
    {
        std::uint64_t h = 3; for (int i = 0; i < 2; ++i) { Q& q = i ? *h1 : *h0; mc::hash_combine(h, q.is_view()); for (char c : m[i]) mc::hash_combine(h, c); mc::hash_combine(h, 0x1000); } mc::checkpoint(h);
        auto w = choose(2); Q& q = w ? *h1 : *h0; Q& o = w ? *h0 : *h1; Q const& co = o; auto& r = m[w]; auto& ro = m[1 - w]; auto const n = std::uint32_t(r.size());
        auto fit = [&](std::size_t s) { if (s > cap) throw mc::prune{}; }; auto at = [&] { return choose(n + 1); }; auto it = [&](std::size_t p) { return q.begin() + std::ptrdiff_t(p); }; char const c = "ab"[w];
        switch (choose(17))
        {
        case 0: { auto f = choose(4), l = choose(std::uint32_t(cap) + 1); MC_TRACE(w, " views ", f, " ", l); auto k = choose(4); if (k == 0) { Q t{ source + f, l }; q = t; } else if (k == 1) q = Q{ std::string_view{ source + f, l } }; else if (k == 2) q = Q(source + f, source + f + l); else { Q whole{ source }; q = Q(whole, f, l); } r = sourceCopy.substr(f, l); MC_CHECK(q.is_view(), "view", ""); break; }
        case 1: { MC_TRACE(w, " = other"); auto k = choose(3); if (k == 0) q = co; else if (k == 1) q = Q{ co }; else q.assign(co); r = ro; break; }
        case 2: { MC_TRACE(w, " = literal"); auto k = choose(3); if (k == 0) q = "ab"; else if (k == 1) q = c; else q.assign("ab"); r = k == 1 ? std::string(1, c) : "ab"; break; }
        case 3: { fit(n + 1); MC_TRACE(w, " push_back"); auto k = choose(4); if (k == 0) q.push_back(c); else if (k == 1) q += c; else if (k == 2) q.append(1, c); else q += std::string(1, c); r += c; break; }
        case 4: { fit(n + ro.size()); MC_TRACE(w, " += other"); auto k = choose(5); if (k == 0) q += co; else if (k == 1) q.append(co); else if (k == 2) q.append(ro); else if (k == 3) q.append(co.begin(), co.end()); else { q.append(co, ro.size() > 1, 1); r += ro.substr(ro.size() > 1, 1); break; } r += ro; break; }
        case 5: { fit(n * 2); MC_TRACE(w, " += self"); auto k = choose(4); Q& self = q; if (k == 0) q += self; else if (k == 1) q.append(self); else if (k == 2) { auto p = at(); q.insert(p, self); r.insert(p, std::string(r)); break; } else { q = self; q.assign(self); break; } r += std::string(r); break; }
        case 6: { auto f = at(), l = choose(n - f + 1); fit(n + l); MC_TRACE(w, " += own part ", f, " ", l); Q t(q, f, l); q.append(t); r += r.substr(f, l); break; }
        case 7: { auto p = at(); auto k = choose(7); MC_TRACE(w, " insert ", p, " ", k); if (k < 3) { fit(n + ro.size()); if (k == 0) q.insert(p, co); else if (k == 1) q.insert(p, ro); else q.insert(p, ro.c_str()); r.insert(p, ro); } else { fit(n + 1); if (k == 3) q.insert(p, 1, c); else if (k == 4) { auto i = q.insert(it(p), c); MC_CHECK(i == it(p), "returned", ""); } else if (k == 5) q.insert(it(p), std::size_t(1), c); else q.insert(p, &c, 1); r.insert(r.begin() + p, c); } break; }
        case 8: { auto f = at(), l = choose(n - f + 1); auto k = choose(3); MC_TRACE(w, " erase ", f, " ", l, " ", k); if (k == 0) { q.erase(f, l); r.erase(f, l); } else if (k == 1) { auto i = q.erase(it(f), it(f + l)); MC_CHECK(i == it(f), "returned", ""); r.erase(f, l); } else { if (f == n) throw mc::prune{}; q.erase(it(f)); r.erase(f, 1); } break; }
        case 9: { auto f = at(), l = choose(n - f + 1); auto k = choose(7); auto s = k < 5 ? ro : std::string(1, c); fit(n - l + s.size()); MC_TRACE(w, " replace ", f, " ", l, " ", k); if (k == 0) q.replace(f, l, co); else if (k == 1) q.replace(f, l, ro); else if (k == 2) q.replace(f, l, ro.c_str()); else if (k == 3) q.replace(it(f), it(f + l), co); else if (k == 4) q.replace(it(f), it(f + l), ro.begin(), ro.end()); else if (k == 5) q.replace(f, l, 1, c); else q.replace(it(f), it(f + l), std::size_t(1), c); r.replace(f, l, s); break; }
        case 10: { if (!n) throw mc::prune{}; auto p = choose(n); auto k = choose(4); MC_TRACE(w, " write ", p); char x = r[p] == 'a' ? 'b' : 'a'; if (k == 0) q[p] = x; else if (k == 1) q.at(p) = x; else if (k == 2) *it(p) = x; else { if (p + 1 != n) throw mc::prune{}; q.back() = x; } r[p] = x; break; }
        case 11: { auto z = choose(std::uint32_t(cap) + 1); MC_TRACE(w, " resize ", z); q.resize(z, c); r.resize(z, c); break; }
        case 12: { MC_TRACE(w, " clear"); q.clear(); r.clear(); break; }
        case 13: { MC_TRACE("swap"); q.swap(o); std::swap(r, ro); break; }
        case 14: { auto k = choose(4); MC_TRACE(w, " owns ", k); if (k == 0) q.c_str(); else if (k == 1) (void)q.begin(); else if (k == 2) q.reserve(8); else static_cast<std::string&>(q); MC_CHECK(!q.is_view(), "owner", ""); break; }
        case 15: { MC_TRACE(w, " moved"); Q t{ std::move(q) }; check(t, r, "moved-to"); q = Q{}; r.clear(); break; }
        case 16: { MC_TRACE(w, " outlives its source"); { std::string t{ ro }; Q own{ t }; q = own; } r = ro; MC_CHECK(!q.is_view(), "owner", ""); break; }
        }
        check(q, r, "changed"); MC_CHECK(o.to_std_string() == ro, "other", "other string changed"); mc::validated();
    }
}
MC_SCENARIO("string_view")
{
    static std::string const s = "abbaab"; auto f = choose(7), l = choose(7 - f), f2 = choose(7), l2 = choose(7 - f2); auto m = s.substr(f, l), w = s.substr(f2, l2); MC_TRACE(m, " ", w);
    neolib::string const ns{ m }; std::string const ss{ m }; neolib::i_string const& is = ns; char const* p = s.data() + f;
    neolib::string_view const views[] = { neolib::string_view{ p, l }, neolib::string_view{ p, p + l }, neolib::string_view{ std::string_view{ p, l } }, neolib::string_view{ ss }, neolib::string_view{ is }, neolib::string_view{ static_cast<neolib::i_string_view const&>(neolib::string_view{ ss }) }, neolib::string_view{ ss.c_str() }, neolib::string_view{ ns.to_string_view() } };
    neolib::string_view const o{ w }; neolib::i_string_view const& io = o;
    for (auto& v : views)
    {
        neolib::i_string_view const& a = v; MC_CHECK(a.size() == m.size() && a.length() == m.size() && a.empty() == m.empty() && a.to_std_string() == m && a.to_std_string_view() == m && std::string(a.begin(), a.end()) == m && std::string(a.cbegin(), a.cend()) == m, "content", m);
        for (std::size_t i = 0; i <= m.size(); ++i) { if (i < m.size()) MC_CHECK(a[i] == m[i], "index", m); same([&] { return a.at(i); }, [&] { return m.at(i); }, "at", m, "", i); } if (!m.empty()) MC_CHECK(a.front() == m.front() && a.back() == m.back(), "ends", m);
        MC_CHECK((a == io) == (m == w) && (a < io) == (m < w) && (a > io) == (m > w) && (a == w) == (m == w) && (w == a) == (m == w), "compare", m, " ", w); MC_CHECK(std::hash<neolib::i_string_view>()(a) == std::hash<std::string_view>()(m) && std::hash<neolib::string_view>()(v) == std::hash<std::string_view>()(m), "hash", m);
        std::ostringstream out; out << a; MC_CHECK(out.str() == m, "output", m);
        neolib::string_view t{ o }; neolib::i_string_view& at = t; at = a; MC_CHECK(t.to_std_string() == m, "assign", ""); at.assign(w.data(), w.size()); MC_CHECK(at == io, "assign", ""); at = std::string_view{ ss }; MC_CHECK(at == a, "assign", ""); at = w; MC_CHECK(at == io, "assign", ""); at.assign(p, p + l); MC_CHECK(at == a, "assign", ""); at = at; MC_CHECK(at == a, "assign", "");
        neolib::string c{ a }; c.append(io); MC_CHECK(c.to_std_string() == m + w, "string", "");
        MC_CHECK(neolib::ci_sv_equal_to()(a, io) == (m == w) && neolib::ci_sv_less()(a, io) == (m < w), "ci", "");
    }
    mc::validated();
}
