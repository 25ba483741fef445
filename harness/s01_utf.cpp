// @props S01
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// UTF-8/16/32 conversions: every scalar value, and every string of code units over representative alphabets (one unit
// of each class the encodings distinguish) up to a length, against an independent codec written from the standard's
// bit layouts. Lone surrogates pass through (as 3 bytes / one unit); each byte that does not start a well-formed
// sequence becomes U+FFFD, or the code-page character of that byte when the fallback is asked for.
#include "enumerate.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string_utf.hpp>
#include <neolib/core/string.hpp>
using mc::choose;
namespace
{
    typedef std::u32string U32; typedef std::u16string U16; typedef std::string U8;
    std::string show(U32 const& s) { std::ostringstream o; o << std::hex; for (auto c : s) o << "U+" << std::uint32_t(c) << " "; return o.str(); }
    std::string show(U16 const& s) { std::ostringstream o; o << std::hex; for (auto c : s) o << std::uint32_t(c) << " "; return o.str(); }
    void put8(U8& s, std::uint32_t c) { if (c > 0x10FFFF) s += '?'; else if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xC0 + c / 64); s += char(0x80 + c % 64); } else if (c < 0x10000) { s += char(0xE0 + c / 4096); s += char(0x80 + c / 64 % 64); s += char(0x80 + c % 64); } else { s += char(0xF0 + c / 262144); s += char(0x80 + c / 4096 % 64); s += char(0x80 + c / 64 % 64); s += char(0x80 + c % 64); } }
    void put16(U16& s, std::uint32_t c) { if (c < 0x10000) s += char16_t(c); else { s += char16_t(0xD800 + (c - 0x10000) / 1024); s += char16_t(0xDC00 + (c - 0x10000) % 1024); } }
    struct decoded { U32 chars; std::vector<std::size_t> at; bool good = true, surrogate = false; };
    std::size_t lengthOf(unsigned char b) { return b < 0x80 ? 1 : b < 0xC2 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : 0; }
    decoded decode(U8 const& s, int fallback = 0)
    {
        decoded r;
        for (std::size_t i = 0; i < s.size();)
        {
            r.at.push_back(i); unsigned char const b = s[i]; std::size_t n = lengthOf(b); std::uint32_t c = n < 2 ? b : b & (0x7F >> n); if (i + n > s.size()) n = 0;
            for (std::size_t k = 1; k < n; ++k) if ((s[i + k] & 0xC0) != 0x80) { n = 0; break; } else c = c * 64 + (s[i + k] & 0x3F);
            if ((n == 3 && c < 0x800) || (n == 4 && (c < 0x10000 || c > 0x10FFFF))) n = 0;
            if (n) { r.chars += char32_t(c); i += n; if (c >= 0xD800 && c < 0xE000) r.surrogate = true; continue; }
            r.good = false; c = 0xFFFD; char x = char(b); std::mbstate_t st{};
            if (fallback == 16) { wchar_t w; c = std::mbrtowc(&w, &x, 1, &st) == 1 ? std::uint32_t(w) : b; } if (fallback == 32) { char32_t w; c = std::mbrtoc32(&w, &x, 1, &st) == 1 ? std::uint32_t(w) : b; }
            r.chars += char32_t(c); ++i;
        }
        return r;
    }
    U16 to16(U32 const& s) { U16 r; for (auto c : s) put16(r, c); return r; }
    U8 to8(U32 const& s) { U8 r; for (auto c : s) put8(r, c); return r; }
    template <typename F> std::string exactly(std::string const& s, F const& f) { std::unique_ptr<char[]> p{ new char[s.size()] }; std::copy(s.begin(), s.end(), p.get()); return f(std::string_view{ p.get(), s.size() }); }
}
static void from8(U8 const& s)
{
    auto const d = decode(s); auto const h = mc::hex(s);
    U16 const u16 = neolib::utf8_to_utf16(s); U32 const u32 = neolib::utf8_to_utf32(s);
    MC_CHECK(u16 == to16(d.chars), "utf8_to_utf16", h, ": ", show(u16)); MC_CHECK(u32 == d.chars, "utf8_to_utf32", h, ": ", show(u32));
    exactly(s, [&](std::string_view v) { MC_CHECK(neolib::utf8_to_utf32(v) == d.chars, "utf8_to_utf32", h, " (view)"); if (!d.surrogate) MC_CHECK(neolib::check_utf8(v) == d.good, "check_utf8", h); return std::string{}; });
    MC_CHECK(neolib::utf8_to_utf32(s.begin(), s.end()) == d.chars, "utf8_to_utf32", h, " (range)"); MC_CHECK(neolib::any_to_utf16(s) == u16 && neolib::utf8_to_any<U16>(s) == u16 && neolib::utf8_to_any<U8>(s) == s && neolib::any_to_utf8(s) == s, "any", h);
    { auto a = neolib::any_to_utf16(s.data(), s.size()); MC_CHECK(U16(a.data(), a.length()) == u16, "any", h); }
    std::vector<std::size_t> from, to, want; U16 so; for (auto c : d.chars) { want.push_back(so.size()); put16(so, c); }
    auto back = [&](std::size_t a, std::size_t b) { from.push_back(a); to.push_back(b); };
    MC_CHECK(neolib::utf8_to_utf16(s, back) == u16 && from == d.at && to == want, "callback16", h, " ", mc::show(from), mc::show(to)); from.clear(); to.clear(); for (std::size_t i = 0; i < want.size(); ++i) want[i] = i;
    MC_CHECK(neolib::utf8_to_utf32(s, back) == d.chars && from == d.at && to == want, "callback32", h, " ", mc::show(from), mc::show(to));
    MC_CHECK(neolib::utf8_to_utf16(s, true) == to16(decode(s, 16).chars) && neolib::utf8_to_utf32(s, true) == decode(s, 32).chars, "fallback", h);
    if (!d.surrogate) { neolib::string ns{ s }; MC_CHECK(neolib::check_utf8(s) == d.good && neolib::check_utf8(ns) == d.good, "check_utf8", h); }
    if (d.good) { MC_CHECK(neolib::utf32_to_utf8(u32) == s, "round trip", h, ": ", mc::hex(neolib::utf32_to_utf8(u32))); if (!d.surrogate) MC_CHECK(neolib::utf16_to_utf8(u16) == s, "round trip", h, ": ", mc::hex(neolib::utf16_to_utf8(u16))); }
    for (char c : s) MC_CHECK(neolib::is_utf8_trailing(c) == ((unsigned char)c >= 0x80 && (unsigned char)c < 0xC0), "trailing", h);
}
static void from16(U16 const& s)
{
    U32 chars; std::vector<std::size_t> at; bool lone = false;
    for (std::size_t i = 0; i < s.size(); ++i) { at.push_back(i); std::uint32_t c = s[i]; if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) c = 0x10000 + (c - 0xD800) * 1024 + (s[++i] - 0xDC00); else if (c >= 0xD800 && c < 0xE000) lone = true; chars += char32_t(c); }
    U8 const want = to8(chars), got = neolib::utf16_to_utf8(s); MC_CHECK(got == want, "utf16_to_utf8", show(s), ": ", mc::hex(got)); MC_CHECK(neolib::any_to_utf8(s) == want && neolib::utf16_to_any<U8>(s) == want && neolib::utf16_to_any<U16>(s) == s && neolib::any_to_utf16(s) == s, "any", show(s));
    MC_CHECK(neolib::utf8_to_utf16(got) == s, "round trip", show(s)); MC_CHECK(lone || neolib::check_utf8(got), "well-formed", show(s));
    neolib::utf16_to_utf8_character_map map, expected; MC_CHECK(neolib::utf16_to_utf8(s, map) == want, "character map", show(s)); std::size_t o = 0;
    for (std::size_t k = 0; k < chars.size(); ++k) { U8 one; put8(one, chars[k]); for (std::size_t j = 0; j < one.size(); ++j) expected[o + j] = at[k] + (chars[k] > 0xFFFF && j + 1 == one.size()); o += one.size(); } MC_CHECK(map == expected, "character map", show(s));
    (void)neolib::utf16_to_utf8<true>(s); for (auto c : s) MC_CHECK(neolib::utf16::is_high_surrogate(c) == (c >= 0xD800 && c <= 0xDBFF) && neolib::utf16::is_low_surrogate(c) == (c >= 0xDC00 && c <= 0xDFFF), "surrogate", show(s));
}
static void from32(U32 const& s)
{
    auto const want = to8(s); MC_CHECK(neolib::utf32_to_utf8(s) == want, "utf32_to_utf8", show(s)); bool valid = true, lone = false; for (auto c : s) { if (c > 0x10FFFF) valid = false; if (c >= 0xD800 && c < 0xE000) lone = true; }
    MC_CHECK(lone || neolib::check_utf8(want), "well-formed", show(s)); if (valid) { MC_CHECK(neolib::utf8_to_utf32(want) == s, "round trip", show(s)); if (!lone) { MC_CHECK(neolib::utf8_to_utf16(want) == to16(s), "round trip", show(s)); MC_CHECK(neolib::utf16_to_utf8(to16(s)) == want, "round trip", show(s)); } }
    for (auto c : s) { U8 t = "x"; auto n = neolib::append_utf8(t, c); U8 one = "x"; put8(one, c); MC_CHECK(t == one && n == one.size() - 1, "append_utf8", show(s)); }
}
MC_SCENARIO("utf/every code point") { auto const part = choose(18 * 16); mc::heavy(); for (std::uint32_t c = part * 0x1000; c < (part + 1) * 0x1000; ++c) { from32(U32(1, c)); if (c < 0x110000) { U8 s; put8(s, c); from8(s); from8(s + "\x80"); U16 w; put16(w, c); from16(w); } mc::op(); mc::validated(); } }
MC_SCENARIO("utf/every two bytes") { auto a = choose(256); mc::heavy(); for (int b = 0; b < 256; ++b) { from8(U8{ char(a), char(b) }); mc::op(); mc::validated(); } from8(U8(1, char(a))); }
MC_SCENARIO("utf/bytes") { std::vector<char> const letters{ '\x41', '\x7F', '\x80', '\x8F', '\x90', '\x9F', '\xA0', '\xBF', '\xC0', '\xC2', '\xDF', '\xE0', '\xE1', '\xED', '\xEF', '\xF0', '\xF1', '\xF4', '\xF5', '\xF7', '\xF8', '\xFF' }; mc::words(letters, 2, mc::tier(4, 5), [](auto const& w) { from8(mc::text(w)); }); }
MC_SCENARIO("utf/every lead and trail") { auto a = 0xC0 + choose(64); mc::heavy(); auto const t = mc::thorough() ? std::vector<int>{ 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBB, 0xBD, 0xBF, 0xC0, 0xC1, 0xC2, 0xE0, 0xF0, 0xFF } : std::vector<int>{ 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBD, 0xBF, 0xC1 }; for (int b = 0; b < 256; ++b) for (int c : t) for (int d : t) { from8(U8{ char(a), char(b), char(c), char(d) }); from8(U8{ char(a), char(b), char(c) }); mc::op(); mc::validated(); } }
MC_SCENARIO("utf/characters") { std::vector<std::string> const letters{ "a", "\xC2\x80", "\xDF\xBF", "\xE0\xA0\x80", "\xED\x9F\xBF", "\xEE\x80\x80", "\xEF\xBF\xBD", "\xEF\xBF\xBF", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF", std::string(1, '\0'), "\x80", "\xE0\xA0", "\xF0\x90\x80", "\xF5" }; mc::words(letters, 2, mc::tier(4, 5), [](auto const& w) { from8(mc::text(w)); }); }
MC_SCENARIO("utf/units") { std::vector<char16_t> const letters{ 0, 0x41, 0x7F, 0x80, 0xC3, 0xBF, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF }; mc::words(letters, 2, mc::tier(4, 5), [](auto const& w) { from16(U16(w.begin(), w.end())); }); }
MC_SCENARIO("utf/scalars") { std::vector<char32_t> const letters{ 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFFFF }; mc::words(letters, 2, mc::tier(4, 5), [](auto const& w) { from32(U32(w.begin(), w.end())); }); }
