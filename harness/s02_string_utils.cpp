// @props S02
// @src src/core/reference_counted.cpp src/core/lifetime.cpp src/core/string_utils.cpp
// @link -lboost_locale
// String utilities against their plain definitions, for all texts, delimiters, patterns and limits over small alphabets.
#include "enumerate.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string_utils.hpp>
#include <neolib/core/string_ci.hpp>
#include <set>
#include <list>
using mc::choose;
namespace
{
    typedef std::string S; typedef std::vector<S> L; constexpr auto npos = S::npos;
    S q(S const& s) { return "'" + neolib::to_escaped_string(s) + "'"; }
    S q(L const& v) { S r; for (auto const& s : v) r += q(s) + " "; return r; }
    // all words over the letters up to a length, as a list
    L all(S const& letters, std::size_t most) { L r{ S{} }; for (std::size_t i = 0; i < r.size(); ++i) if (r[i].size() < most) for (char c : letters) r.push_back(r[i] + c); return r; }
    struct tokenised { L tokens; std::vector<std::pair<std::size_t, std::size_t>> at; };
    tokenised split(S const& s, S const& d, std::size_t most, bool skip, bool sub)
    {
        tokenised r; std::size_t b = 0; auto add = [&](std::size_t e) { if (most && r.tokens.size() == most) return; if (b == e && skip) return; r.tokens.push_back(s.substr(b, e - b)); r.at.push_back({ b, e }); };
        if (s.empty()) return r; if (d.empty()) { add(s.size()); return r; }
        for (std::size_t i = 0; i < s.size();) { bool const hit = sub ? s.compare(i, d.size(), d) == 0 : d.find(s[i]) != npos; if (!hit) { ++i; continue; } add(i); i += sub ? d.size() : 1; b = i; } add(s.size()); return r;
    }
    // all (begin, end) where the pattern matches; a final * reaches to the end of the text
    void spans(S const& t, std::size_t start, std::size_t at, S const& p, std::size_t k, std::set<std::pair<std::size_t, std::size_t>>& out)
    {
        if (k == p.size()) { out.emplace(start, at); return; } if (p[k] == '*') { if (k + 1 == p.size()) { out.emplace(start, t.size()); return; } for (auto e = at; e <= t.size(); ++e) spans(t, start, e, p, k + 1, out); return; }
        if (at < t.size() && (p[k] == '?' || p[k] == t[at])) spans(t, start, at + 1, p, k + 1, out);
    }
    bool glob(char const* t, char const* p) { if (!*p) return !*t; if (*p == '*') return glob(t, p + 1) || (*t && glob(t + 1, p)); return *t && (*p == '?' || *p == *t) && glob(t + 1, p + 1); }
}
MC_SCENARIO("tokens") { static L const delims = [] { L d = all(",;", 2); d.push_back(",a"); d.push_back("aa"); d.push_back(",,,"); return d; }(); auto const& d = delims[choose(std::uint32_t(delims.size()))]; auto const k = choose(4); bool const skip = k & 1, sub = k & 2; std::vector<char> const letters{ 'a', ',', ';' };
    mc::words(letters, 2, mc::tier(7, 9), [&](auto const& w) { S const s = mc::text(w); for (std::size_t most = 0; most <= 4; ++most) { auto const want = split(s, d, most, skip, sub); auto const got = neolib::tokens(s, d, most, skip, sub); MC_CHECK(got == want.tokens, "tokens", q(s), " by ", q(d), " at most ", most, skip ? " skip" : "", sub ? " subsequence" : "", ": ", q(got), " expected ", q(want.tokens));
        std::vector<std::pair<S::const_iterator, S::const_iterator>> ranges; auto const stop = neolib::tokens(s.begin(), s.end(), d.begin(), d.end(), ranges, most, skip, sub); MC_CHECK(ranges.size() == want.at.size(), "ranges", q(s)); for (std::size_t i = 0; i < ranges.size(); ++i) MC_CHECK(ranges[i].first - s.begin() == std::ptrdiff_t(want.at[i].first) && ranges[i].second - s.begin() == std::ptrdiff_t(want.at[i].second), "ranges", q(s)); MC_CHECK(stop >= s.begin() && stop <= s.end() && (want.at.empty() || stop - s.begin() >= std::ptrdiff_t(want.at.back().second)), "returned", q(s));
        std::list<S> li; neolib::tokens(s, d, li, most, skip, sub); L v; neolib::tokens(s.begin(), s.end(), d, v, most, skip, sub); MC_CHECK(L(li.begin(), li.end()) == got && v == got && neolib::tokens(s.begin(), s.end(), d, most, skip, sub) == got, "overloads", q(s)); } }); }
MC_SCENARIO("replace_string") { static L const ends = all("ab", 3); auto const& what = ends[choose(std::uint32_t(ends.size()))]; auto const& with = ends[choose(std::uint32_t(ends.size()))]; std::vector<char> const letters{ 'a', 'b', 'c' };
    mc::words(letters, 2, mc::tier(6, 8), [&](auto const& w) { S const s = mc::text(w); S want; bool any = false; if (what.empty()) want = s; else for (std::size_t i = 0; i < s.size();) if (s.compare(i, what.size(), what) == 0) { want += with; i += what.size(); any = true; } else want += s[i++]; S t = s; alarm(20); bool const r = neolib::replace_string(t, what, with); alarm(0); MC_CHECK(t == want && r == any, "replace_string", q(s), " ", q(what), " by ", q(with), ": ", q(t), " expected ", q(want), " ", r);
        neolib::string_spans none; S u = s; MC_CHECK(neolib::replace_string(u, what, with, &none) == any && u == want && none.empty(), "spans", q(s)); }); }
MC_SCENARIO("trim and find") { static L const sets = { "", " ", "a", "a ", "b a" }; auto const& set = sets[choose(std::uint32_t(sets.size()))]; std::vector<char> const letters{ 'a', 'b', ' ' };
    mc::words(letters, 2, mc::tier(7, 9), [&](auto const& w) { S const s = mc::text(w); auto in = [&](char c) { return set.find(c) != npos; }; std::size_t b = 0, e = s.size(); while (b < e && in(s[b])) ++b; while (e > b && in(s[e - 1])) --e; std::size_t e2 = s.size(); while (e2 > 0 && in(s[e2 - 1])) --e2;
        S t = s; auto* p = &neolib::remove_leading(t, set); MC_CHECK(p == &t && t == s.substr(b == s.size() ? s.size() : b), "remove_leading", q(s), q(set), q(t)); t = s; p = &neolib::remove_trailing(t, set); MC_CHECK(p == &t && t == s.substr(0, e2), "remove_trailing", q(s), q(set), q(t)); t = s; neolib::remove_leading_and_trailing(t, set); MC_CHECK(t == s.substr(b, e - b), "remove both", q(s), q(set), q(t));
        for (std::size_t i = 0; i < s.size(); ++i) { std::size_t run = npos; for (std::size_t j = i + 1; j-- > 0 && in(s[j]);) run = j; MC_CHECK(neolib::reverse_find_last_of(s, set, i) == run, "reverse_find_last_of", q(s), q(set), i); std::size_t first = npos; for (std::size_t j = i + 1; j-- > 0;) if (in(s[j])) { first = j; break; } MC_CHECK(neolib::reverse_find_first_of(s, set, i) == first, "reverse_find_first_of", q(s), q(set), i); if (i + 1 == s.size()) MC_CHECK(neolib::reverse_find_first_of(s, set, npos) == first, "reverse_find_first_of", q(s)); }
        if (s.empty()) MC_CHECK(neolib::reverse_find_last_of(s, set, 0) == npos && neolib::reverse_find_first_of(s, set, 0) == npos, "reverse empty", ""); }); }
MC_SCENARIO("escapes")
{
    std::vector<char> const letters{ '\\', 'n', 'x', '4', 'F', 'g', '"', '\'', 't', 'r', '\n', '\x01', '\x80', 'a' };
    mc::words(letters, 2, mc::tier(5, 6), [&](auto const& w)
    {
        S const s = mc::text(w); S want; bool simple = true;
        for (std::size_t i = 0; i < s.size();) { char c = s[i++]; if (c != '\\' || i == s.size()) { want += c; continue; } c = s[i++]; if (c == 'n') want += '\n'; else if (c == 'r') want += '\r'; else if (c == 't') want += '\t'; else if (c == 'x') { unsigned v = 0; bool any = false; for (; i < s.size() && S("0123456789abcdefABCDEF").find(s[i]) != npos; ++i) { v = v * 16 + unsigned(S("0123456789abcdef").find(char(tolower(s[i])))); any = true; } if (any) want += char(v & 255); else want += "\\x"; } else want += c; }
        S const got = neolib::unescape(s); MC_CHECK(got == want, "unescape", mc::hex(s), ": ", mc::hex(got), " expected ", mc::hex(want)); MC_CHECK(neolib::unescape(std::string_view{ s }) == want, "unescape", mc::hex(s));
        S esc; for (std::size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == '\n') esc += "\\n"; else if (c == '\r') esc += "\\r"; else if (c == '\t') esc += "\\t"; else if (c < 32 || c > 127) { esc += "\\x"; esc += "0123456789abcdef"[c / 16]; esc += "0123456789abcdef"[c % 16]; if (i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) simple = false; } else { esc += char(c); if (c == '\\') simple = false; } }
        S const e = neolib::to_escaped_string(s); MC_CHECK(e == esc, "to_escaped_string", mc::hex(s), ": ", e, " expected ", esc); if (simple) MC_CHECK(neolib::unescape(e) == s, "escape round trip", mc::hex(s));
        for (std::size_t n = 1; n <= 3; ++n) { MC_CHECK(neolib::to_escaped_string(s, n) == neolib::to_escaped_string(s.substr(0, n)), "limit", mc::hex(s), n); MC_CHECK(neolib::to_escaped_string(s, n, true) == neolib::to_escaped_string(s.substr(0, n)) + (s.size() > n ? "..." : ""), "limit", mc::hex(s), n); }
    });
}
MC_SCENARIO("url escapes") { std::vector<S> const letters{ "a", "%41", "%2f", "%2F", "%25", "%00", "%FF", "+", "4", "%", "%4" }; mc::words(letters, 2, mc::tier(5, 6), [&](auto const& w) { S const s = mc::text(w); bool good = true; for (auto const& l : w) if (l == "%" || l == "%4") good = false; S const got = neolib::parse_url_escapes(s); if (!good) return; S want; for (auto const& l : w) if (l.size() == 3) want += char(std::stoi(l.substr(1), nullptr, 16)); else want += l; MC_CHECK(got == want, "parse_url_escapes", s, ": ", mc::hex(got), " expected ", mc::hex(want)); }); }
MC_SCENARIO("wildcard_match") { static L const pats = all("ab?*", 5); auto const& p = pats[1 + choose(std::uint32_t(mc::tier(int(all("ab?*", 4).size()), int(pats.size())) - 1))]; mc::heavy(); for (auto const& t : all("ab", std::size_t(mc::tier(6, 8)))) { bool const got = neolib::wildcard_match(t, p); MC_CHECK(got == glob(t.c_str(), p.c_str()), "wildcard_match", q(t), " ", q(p), ": ", got); mc::op(); mc::validated(); } }
MC_SCENARIO("string_search_fsa")
{
    static L const pats = [] { L r; for (auto const& s : all("ab?*", 3)) if (!s.empty() && s.find("**") == npos) r.push_back(s); return r; }(); auto const n = std::uint32_t(pats.size()); auto const a = choose(n), b = a + choose(n - a); bool const third = choose(2) && mc::thorough();
    mc::heavy(); for (std::size_t c = third ? b : n - 1; c < n; ++c)
    {
        L use{ pats[a] }; if (b != a) use.push_back(pats[b]); if (third && c != b) use.push_back(pats[c]); std::vector<std::set<std::pair<std::size_t, std::size_t>>> found(use.size()); S text; std::vector<int> calls(use.size()); neolib::string_search_fsa fsa;
        for (std::size_t i = 0; i < use.size(); ++i) fsa.add_pattern(use[i], [&, i](char const* x, char const* y) { MC_CHECK(x >= text.data() && x <= y && y <= text.data() + text.size(), "range", q(text), " ", q(use[i])); ++calls[i]; found[i].emplace(x - text.data(), y - text.data()); });
        for (auto const& t : all("ab", std::size_t(mc::tier(4, 4)))) for (bool remove : { false, true })
        {
            text = t; for (auto& f : found) f.clear(); calls.assign(use.size(), 0); fsa.search(text, remove);
            for (std::size_t i = 0; i < use.size(); ++i)
            {
                std::set<std::pair<std::size_t, std::size_t>> want; for (std::size_t k = 0; k < t.size(); ++k) spans(t, k, k, use[i], 0, want); std::erase_if(want, [&](auto const& m) { return m.first == m.second; });
                if (remove) { auto all = want; std::erase_if(want, [&](auto const& m) { for (auto const& o : all) if (o != m && o.first <= m.first && o.second >= m.second) return true; return false; }); }
                auto show = [](auto const& s) { std::ostringstream o; for (auto const& [x, y] : s) o << "[" << x << "," << y << ") "; return o.str(); }; MC_CHECK(found[i] == want && calls[i] == int(want.size()), "search", q(use), " in ", q(t), remove ? " (maximal)" : "", ": ", q(use[i]), " found ", show(found[i]), " expected ", show(want));
            }
            mc::op(); mc::validated();
        }
    }
}
MC_SCENARIO("format")
{
    std::vector<S> const letters{ "a", "{0}", "{1}", "{}", "{2:3}", "{{", "}}", "}", "{:>4}", "{0:x}" };
    mc::words(letters, 2, mc::tier(5, 6), [&](auto const& w)
    {
        bool autos = false, manual = false; for (auto const& l : w) { if (l == "{}" || l == "{:>4}") autos = true; else if (l[0] == '{' && l != "{{") manual = true; } if (autos && manual) return;
        S want; neolib::format_result::arg_list args; std::size_t next = 0; int const a0 = 26, a1 = 7; S const a2 = "";
        std::size_t autosUsed = 0; for (auto const& l : w) if (l == "{}" || l == "{:>4}") ++autosUsed; if (autosUsed > 3) { bool threw = false; try { (void)neolib::format(mc::text(w), a0, a1, a2); } catch (std::format_error const&) { threw = true; } MC_CHECK(threw, "too few arguments", mc::text(w)); return; }
        for (auto const& l : w) { if (l[0] != '{' || l == "{{") { want += l; continue; } std::size_t const id = l[1] == '0' ? 0 : l[1] == '1' ? 1 : l[1] == '2' ? 2 : next++; S spec = l.substr(l[1] == '}' || l[1] == ':' ? 1 : 2); if (spec == "}") spec = ""; auto const f = "{" + std::to_string(id) + (spec.empty() ? "}" : spec); auto const b = want.size(); want += std::vformat(f, std::make_format_args(a0, a1, a2)); args.push_back({ id, std::ptrdiff_t(b), std::ptrdiff_t(want.size()) }); }
        auto const got = neolib::format(mc::text(w), a0, a1, a2); MC_CHECK(static_cast<S const&>(got) == want, "format", mc::text(w), ": ", S(got), " expected ", want); MC_CHECK(got.args == args, "format arguments", mc::text(w));
        for (std::size_t id = 0; id < 4; ++id) { auto f = std::find_if(args.begin(), args.end(), [&](auto const& a) { return a.arg == id; }); MC_CHECK(got.has_arg(id) == (f != args.end()) && got.find_arg(id) - got.args.begin() == f - args.begin(), "find_arg", mc::text(w)); bool threw = false; try { auto v = got.arg_span(id); MC_CHECK(f != args.end() && v == std::string_view{ want }.substr(f->begin, f->end - f->begin), "arg_span", mc::text(w)); } catch (std::format_error const&) { threw = true; } MC_CHECK(threw == (f == args.end()), "arg_span", mc::text(w)); }
        for (std::ptrdiff_t p = 0; p <= std::ptrdiff_t(want.size()); ++p) { auto in = std::find_if(args.begin(), args.end(), [&](auto const& a) { return p >= a.begin && p < a.end; }); MC_CHECK(got.arg_spanning(p) - got.args.begin() == in - args.begin(), "arg_spanning", mc::text(w), " ", p); auto after = std::find_if(args.begin(), args.end(), [&](auto const& a) { return a.begin > p; }); MC_CHECK(got.arg_after(p) - got.args.begin() == after - args.begin(), "arg_after", mc::text(w), " ", p); }
    });
    for (S bad : { "{", "a{", "{0", "{0:", "{9}" }) { bool threw = false; try { (void)neolib::format(bad, 1); } catch (std::format_error const&) { threw = true; } MC_CHECK(threw, "bad format", bad); }
}
MC_SCENARIO("case")
{
    static L const words = all("aBz", 3); auto const& a = words[choose(std::uint32_t(words.size()))]; mc::heavy(); auto lower = [](S s) { for (auto& c : s) c = char(tolower(c)); return s; }; auto upper = [](S s) { for (auto& c : s) c = char(toupper(c)); return s; }; MC_CHECK(neolib::to_lower(a) == lower(a) && neolib::to_upper(a) == upper(a), "case", a);
    auto const ca = neolib::make_ci_string(a); MC_CHECK(neolib::make_string(ca) == a, "ci", a); static std::map<S, S> low; auto l = [&](S const& s) -> S const& { return low.try_emplace(s, lower(s)).first->second; };
    for (auto const& b : words) { auto const cb = neolib::make_ci_string(b); bool const eq = l(a) == l(b), lt = l(a) < l(b); MC_CHECK((ca == cb) == eq && (ca == b) == eq && (a == cb) == eq && (ca != b) == !eq && (a != cb) == !eq && (ca < cb) == lt && (ca < b) == lt && (a < cb) == lt, "ci compare", a, " ", b); MC_CHECK(neolib::lexicographical_compare_ignoring_case(a, b) == lt, "lexicographical", a, " ", b); MC_CHECK((ca.find(cb) == neolib::ci_string::npos) == (l(a).find(l(b)) == npos), "ci find", a, " ", b); std::string_view const vb{ b }; MC_CHECK((ca == vb) == eq && (vb == ca) == eq && (ca != vb) == !eq && (ca < vb) == lt && (vb < ca) == (l(b) < l(a)), "ci view", a, b); mc::op(); mc::validated(); }
}
MC_SCENARIO("separators as whitespace") { std::vector<S> const letters{ "1", ",", " ", "[", "}", "a" }; mc::words(letters, 1, mc::tier(5, 6), [&](auto const& w) { S const s = mc::text(w); auto read = [&](std::ctype<char>* f) { std::istringstream i{ s }; i.imbue(std::locale(i.getloc(), f)); L r; S t; while (i >> t) r.push_back(t); return r; }; auto want = [&](S const& seps) { auto r = split(s, seps, 0, true, false); return r.tokens; }; MC_CHECK(read(new neolib::comma_as_whitespace) == want(", "), "comma", s); MC_CHECK(read(new neolib::comma_and_brackets_as_whitespace) == want(", []{}()"), "brackets", s); MC_CHECK(read(new neolib::comma_only_whitespace) == want(","), "comma only", s); }); }
