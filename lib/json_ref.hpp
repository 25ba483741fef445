// JSON as RFC 8259 defines it, for comparison: a recursive descent parser to a plain tree, and the text enumerations
// shared by the JSON harnesses.  With bare = true also the documented extension of the standard syntax: words as values
// and as member names (true, false and null are no member names).
#pragma once
#include "enumerate.hpp"
#include <sstream>
#include <optional>
#include <functional>
#include <cmath>
namespace ref
{
    typedef std::string S; typedef std::vector<S> L;
    struct J
    {
        enum kind_t { none, object, array, number, string, boolean, null, word } kind = none; S text; double num = 0; bool flag = false; std::vector<std::pair<S, J>> in;
        bool operator==(J const& o) const { return kind == o.kind && text == o.text && flag == o.flag && in == o.in && (num == o.num || std::abs(num - o.num) <= 1e-14 * std::abs(num)); }
    };
    inline S show(J const& j)
    {
        switch (j.kind) { case J::none: return "nothing"; case J::number: { char b[40]; snprintf(b, sizeof b, "%.17g", j.num); return b; } case J::string: return "\"" + j.text + "\""; case J::boolean: return j.flag ? "true" : "false"; case J::null: return "null"; case J::word: return "<" + j.text + ">"; default:; }
        S r; for (auto const& [n, v] : j.in) { if (!r.empty()) r += ","; if (j.kind == J::object) r += "'" + n + "':"; r += show(v); } return j.kind == J::object ? "{" + r + "}" : "[" + r + "]";
    }
    struct parser
    {
        S const& s; bool bare; std::size_t at = 0; bool lone = false, far = false; struct bad {};
        int c() const { return at < s.size() ? (unsigned char)s[at] : -1; }
        void ws() { while (c() == ' ' || c() == '\t' || c() == '\n' || c() == '\r') ++at; }
        void want(char x) { if (c() != x) throw bad{}; ++at; }
        static bool head(int c) { return c >= 0x80 || isalpha(c) || c == '_' || c == '$' || c == '@'; }
        static bool tail(int c) { return head(c) || (c >= '0' && c <= '9') || c == '.'; }
        static void utf8(S& r, unsigned long c) { if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); } else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } }
        unsigned unit() { unsigned r = 0; for (int i = 0; i < 4; ++i, ++at) { if (c() < 0 || !isxdigit(c())) throw bad{}; r = r * 16 + unsigned(isdigit(c()) ? c() - '0' : (c() | 32) - 'a' + 10); } return r; }
        S str()
        {
            S r; want('"'); for (;;)
            {
                int const x = c(); if (x < 0x20) throw bad{}; ++at; if (x == '"') return r; if (x != '\\') { r += char(x); continue; }
                int const e = c(); ++at; switch (e)
                {
                case '"': case '\\': case '/': r += char(e); break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
                case 'u': { unsigned const u = unit(); if (u >= 0xDC00 && u < 0xE000) lone = true; if (u < 0xD800 || u >= 0xE000) { utf8(r, u); break; } if (u < 0xDC00 && s.substr(at, 2) == "\\u") { at += 2; auto const before = at; unsigned const v = unit(); if (v >= 0xDC00 && v < 0xE000) { utf8(r, 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00)); break; } at = before - 2; } lone = true; break; }
                default: throw bad{};
                }
            }
        }
        S identifier() { S r; if (!head(c())) throw bad{}; while (c() >= 0 && tail(c())) { r += char(c()); ++at; } return r; }
        J value()
        {
            J j; int const x = c(); if (x == '{') { j.kind = J::object; ++at; ws(); if (c() == '}') { ++at; return j; } for (;;) { S n; if (bare && c() != '"') { n = identifier(); if (n == "true" || n == "false" || n == "null") throw bad{}; } else n = str(); ws(); want(':'); ws(); J v = value(); j.in.emplace_back(n, v); ws(); if (c() == '}') { ++at; return j; } want(','); ws(); } }
            if (x == '[') { j.kind = J::array; ++at; ws(); if (c() == ']') { ++at; return j; } for (;;) { j.in.emplace_back(S{}, value()); ws(); if (c() == ']') { ++at; return j; } want(','); ws(); } }
            if (x == '"') { j.kind = J::string; j.text = str(); return j; }
            if (x == '-' || (x >= '0' && x <= '9'))
            {
                auto const b = at; auto digits = [&] { if (c() < '0' || c() > '9') throw bad{}; while (c() >= '0' && c() <= '9') ++at; };
                if (x == '-') ++at; if (c() == '0') ++at; else digits(); if (c() == '.') { ++at; digits(); } if (c() == 'e' || c() == 'E') { ++at; if (c() == '+' || c() == '-') ++at; auto const e = at; digits(); if (at - e > 3 || std::stoi(s.substr(e, at - e)) > 250) far = true; }
                if (c() >= 0 && tail(c())) throw bad{}; j.kind = J::number; j.num = std::strtod(s.substr(b, at - b).c_str(), nullptr); return j;
            }
            auto const w = identifier(); if (w == "true" || w == "false") { j.kind = J::boolean; j.flag = w == "true"; } else if (w == "null") j.kind = J::null; else if (bare) { j.kind = J::word; j.text = w; } else throw bad{}; return j;
        }
    };
    struct outcome { std::optional<J> tree; bool open = false; }; // open: well-formed but not determined by this reference (lone surrogates, exponents beyond the range of doubles)
    inline outcome parse(S const& s, bool bare)
    {
        parser p{ s, bare }; if (s.substr(0, 3) == "\xEF\xBB\xBF") p.at = 3; try { p.ws(); J j = p.value(); p.ws(); if (p.c() >= 0) return { {}, p.lone || p.far }; return { j, p.lone || p.far }; } catch (parser::bad const&) { return { {}, p.lone || p.far }; }
    }
    // the texts: f(text)
    template <typename F> inline void characters(F const& f) { static L const a{ "{", "}", "[", "]", ",", ":", "\"", "\\", "1", "0", "-", ".", "e", "true", " ", "\n" }; mc::words(a, 2, mc::tier(5, 6), [&](auto const& w) { f(mc::text(w)); }); }
    template <typename F> inline void tokens(F const& f) { static L const a{ "{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "1", "null", " " }; mc::words(a, 2, mc::tier(6, 7), [&](auto const& w) { f(mc::text(w)); }); }
    template <typename F> inline void members(F const& f) { static L const a{ "{", "}", "[", "]", ",", ":", "\"a\":", "b:", "c", "1", ",\"d\":" }; mc::words(a, 2, mc::tier(5, 6), [&](auto const& w) { f("{\"k\":" + mc::text(w)); f("[{" + mc::text(w) + "}]"); }); }
    template <typename F> inline void strings(F const& f)
    {
        static L const a{ "a", "\xC3\xA9", "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\uD834\\uDD1E", "\\u0000", "\\u001f", " ", "\x7F", "\t", "\x01", "\\x", "\\u12", "\\uD834", "\\uDD1E", "{", "'", "/*", "//", "u0041" };
        mc::words(a, 1, mc::tier(3, 4), [&](auto const& w) { auto const t = mc::text(w); f("\"" + t + "\""); f("[\"" + t + "\", \"" + t + "\"]"); f("{\"" + t + "\": 1, \"x\": \"" + t + "\"}"); });
    }
    template <typename F> inline void numbers(F const& f, std::size_t most = mc::tier(6, 7))
    {
        static L const a{ "0", "1", "9", "-", "+", ".", "e", "E" }; mc::words(a, 2, most, [&](auto const& w) { auto const t = mc::text(w); f(t); f("[" + t + "]"); f("{\"a\":" + t + " }"); });
    }
    template <typename F> inline void large_numbers(F const& f)
    {
        static L const digits{ "", "1", "12", "214748364", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", "0" }; auto const& d = digits[mc::choose(std::uint32_t(digits.size()))]; auto const& e = digits[mc::choose(std::uint32_t(digits.size()))];
        for (S const& x : { "", "e0", "e1", "e-1", "E+10", "e-20", "e100", "e-100", "e240", "E-240" }) for (S const& t : { d, "-" + d, d + "." + e, "-" + d + "." + e, d + "0." + e }) { f(t + x); f("[" + t + x + "," + t + "]"); mc::op(); mc::validated(); }
    }
    template <typename F> inline void shapes(F const& f)
    {
        static L const leaf{ "1", "\"a\"", "true", "null", "2.5", "{}", "[]", "\"\"" }; static L const name{ "a", "b", "", "\xC3\xA9" }; unsigned left = mc::tier(5, 6); unsigned const style = mc::choose(3); S const sp = style == 0 ? "" : style == 1 ? " " : "\n\t ";
        std::function<S(unsigned, unsigned)> gen = [&](unsigned depth, unsigned n) -> S { auto const k = depth == 0 || left == 0 ? 0 : mc::choose(3); if (k == 0) return leaf[(left + n * 3) % leaf.size()]; S r; unsigned i = 0; while (left > 0 && (i == 0 || mc::choose(2))) { --left; if (i) r += sp + "," + sp; if (k == 1) r += "\"" + name[(i + n) % name.size()] + "\"" + sp + ":" + sp; r += gen(depth - 1, i); ++i; } return (k == 1 ? "{" : "[") + sp + r + sp + (k == 1 ? "}" : "]"); };
        auto const t = sp + gen(5, mc::choose(8)) + sp; f(t); mc::op(); mc::validated();
    }
    // every prefix of a document, every byte replaced, removed, doubled
    inline L const& samples() { static L const s{ "{\"a\": [1, -2.5e3, \"x\\n\\u00e9\"], \"b\": {\"c\": null, \"d\": [true, false, {}]}, \"\": []}\n", "[\"\\uD834\\uDD1E\", 0, [[]], {\"k\": {\"k\": \"\\\\\"}}]", "\xEF\xBB\xBF{ \"\xE2\x82\xAC\" : 18446744073709551615 }" }; return s; }
    template <typename F> inline void mutations(F const& f)
    {
        auto const& s = samples()[mc::choose(3)]; auto const at = mc::choose(std::uint32_t(s.size())); f(s.substr(0, at)); f(s.substr(at)); f(s.substr(0, at) + s.substr(at + 1)); f(s.substr(0, at + 1) + s.substr(at)); f(s.substr(0, at) + s); mc::op();
        for (int c = 0; c < 256; ++c) { auto t = s; t[at] = char(c); f(t); t = s; t.insert(at, 1, char(c)); f(t); mc::op(); } for (std::size_t i = 0; i + 1 < s.size() && mc::thorough(); ++i) if (i != at) { auto t = s; t[i] = s[at]; f(t); std::swap(t[at], t[i]); f(t); mc::op(); } mc::validated();
    }
}
