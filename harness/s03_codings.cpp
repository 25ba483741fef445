// @props S03
// @src src/core/reference_counted.cpp src/core/lifetime.cpp src/core/crc.cpp src/core/uuid.cpp
// @link -lz
// Numbers as text, LEB128, CRC-32 and UUIDs against independent definitions: every value of the small ranges, every
// value around each boundary, every text over the letters that matter. UUID generation runs on enumerated key bytes.
#include "enumerate.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/string_numeric.hpp>
#include <neolib/core/leb128.hpp>
#include <neolib/core/crc.hpp>
#include <neolib/core/uuid.hpp>
#include <neolib/io/openssl.hpp>
#include <limits>
#include <set>
#include <unordered_set>
#include <cmath>
using mc::choose;
namespace { typedef std::string S; std::uint8_t key[16]; bool keyFails = false; }
namespace neolib { openssl::openssl() {} openssl::~openssl() {} openssl& openssl::instance() { static openssl o; return o; } bool openssl::generate_key(uint8_t* b, std::size_t n) { if (keyFails) return false; for (std::size_t i = 0; i < n; ++i) b[i] = key[i % 16]; return true; } }
namespace
{
    S digits(std::uint64_t v, unsigned base) { S r; do r.insert(r.begin(), "0123456789ABCDEF"[v % base]), v /= base; while (v); return r; }
    S decimal(std::int64_t v) { return v < 0 ? "-" + digits(0 - std::uint64_t(v), 10) : digits(v, 10); }
    template <typename N> S shown(N const& n) { std::ostringstream o; o << n; return o.str(); }
    // interesting 64-bit values: within `near` of 0 and of every power of two and of ten
    std::vector<std::uint64_t> const& values() { static std::vector<std::uint64_t> const r = [] { std::set<std::uint64_t> s; std::uint64_t const near = mc::tier(40, 400); auto around = [&](std::uint64_t v) { for (std::uint64_t d = 0; d <= near; ++d) { s.insert(v + d); s.insert(v - d); } }; for (int b = 0; b < 64; ++b) around(std::uint64_t(1) << b); std::uint64_t t = 1; for (int i = 0; i < 20; ++i, t *= 10) { around(t); around(t * 5); around(0 - t); } return std::vector<std::uint64_t>(s.begin(), s.end()); }(); return r; }
    neolib::number_t kind(S const& text) { return neolib::string_to_number(std::string_view{ text }); }
    template <typename T> bool is(neolib::number_t const& n, T v) { return std::holds_alternative<T>(n) && std::get<T>(n) == v; }
}
static void integer(std::uint64_t u)
{
    auto const i = std::int64_t(u); S const ud = digits(u, 10), id = decimal(i);
    MC_CHECK(neolib::uint64_to_string<char>(u) == ud && neolib::int64_to_string<char>(i) == id, "to text", ud, " ", id); MC_CHECK(neolib::string_to_uint64(ud) == u && neolib::string_to_uint64(std::string_view{ ud }) == u && neolib::string_to_int64(id) == i && neolib::string_to_int64(std::string_view{ id }) == i, "from text", ud, " ", id);
    S const hx = digits(u, 16), oc = digits(u, 8); MC_CHECK(neolib::uint64_to_string<char>(u, 16) == hx && neolib::uint64_to_string<char>(u, 8) == oc, "base", ud); MC_CHECK(neolib::uint64_to_string<char>(u, 16, 0, '0', true) == "0x" + hx && neolib::uint64_to_string<char>(u, 8, 0, '0', true) == "0" + oc && (neolib::integer_to_string<std::uint64_t, char>(u)) == ud, "show base", ud); MC_CHECK(neolib::string_to_uint64(hx, 16) == u && neolib::string_to_uint64(oc, 8) == u && neolib::string_to_uint64("0x" + hx, 16) == u, "from base", ud);
    for (std::size_t w : { 1, 5, 20, 25 }) for (char f : { '0', ' ', '*' }) { S p = ud; if (p.size() < w) p.insert(0, w - p.size(), f); MC_CHECK(neolib::uint64_to_string<char>(u, 10, w, f) == p, "width", ud); S h = hx; if (h.size() < w) h.insert(0, w - h.size(), f); MC_CHECK(neolib::uint64_to_string<char>(u, 16, w, f) == h, "width", ud); }
    if (i >= 0) MC_CHECK(neolib::string_to_int64(hx, 16) == i && neolib::int64_to_string<char>(i, 16) == hx, "from base", id);
    auto const s = std::uint32_t(u); auto const n = std::int32_t(s); S const sd = digits(s, 10), nd = decimal(n); MC_CHECK(neolib::uint32_to_string<char>(s) == sd && neolib::int32_to_string<char>(n) == nd && neolib::string_to_uint32(sd) == s && neolib::string_to_int32(nd) == n && neolib::string_to_uint32(std::string_view{ sd }) == s && neolib::string_to_int32(std::string_view{ nd }) == n, "32 bits", sd, " ", nd); MC_CHECK(neolib::string_to_uint32(digits(s, 16), 16) == s && neolib::uint32_to_string<char>(s, 16, 8) == S(8 - digits(s, 16).size(), '0') + digits(s, 16), "32 bits", sd); if (n >= 0) MC_CHECK(neolib::string_to_int32(digits(s, 16), 16) == n, "32 bits", sd);
    auto const a = kind(ud), b = kind(id); MC_CHECK(u <= 0x7FFFFFFF ? is(a, std::int32_t(u)) : u <= 0xFFFFFFFF ? is(a, std::uint32_t(u)) : u <= 0x7FFFFFFFFFFFFFFF ? is(a, std::int64_t(u)) : is(a, u), "number", ud); MC_CHECK(i == std::int32_t(i) ? is(b, std::int32_t(i)) : i > 0 && i <= 0xFFFFFFFF ? is(b, std::uint32_t(i)) : is(b, i), "number", id);
    auto whole = [&](S const& t) { auto n = kind(t); return std::holds_alternative<double>(n) ? std::get<double>(n) : NAN; }; double const d = double(u); auto close = [&](double x, double y) { return std::abs(x - y) <= d * 1e-15; }; MC_CHECK(close(whole(ud + ".0"), d) && close(whole(ud + "e0"), d) && close(whole("-" + ud + ".0"), -d), "number as double", ud);
    auto decode = [&](auto const& v, bool sign, S const& what) { std::vector<std::uint8_t> b; std::visit([&](auto const& x) { b.assign(x.begin(), x.end()); }, v); std::uint64_t r = 0; for (std::size_t k = 0; k < b.size(); ++k) { MC_CHECK(bool(b[k] & 0x80) == (k + 1 < b.size()), "continuation", what); r |= k * 7 < 64 ? std::uint64_t(b[k] & 0x7F) << (k * 7) : 0; } if (sign && (b.back() & 0x40) && b.size() * 7 < 64) r |= ~std::uint64_t(0) << (b.size() * 7); return std::pair{ r, b.size() }; };
    auto ubits = [](std::uint64_t v) { std::size_t n = 0; while (v) ++n, v >>= 1; return n; };
    { auto [r, n] = decode(neolib::leb128::ULEB128(u), false, ud); MC_CHECK(r == u && n == std::max<std::size_t>(1, (ubits(u) + 6) / 7), "ULEB128", ud, " ", n, " bytes, decodes to ", r); } { auto [r, n] = decode(neolib::leb128::SLEB128(i), true, id); std::size_t const bits = ubits(i < 0 ? ~u : u) + 1; MC_CHECK(r == u && n == (bits + 6) / 7, "SLEB128", id, " ", n, " bytes, decodes to ", std::int64_t(r)); } { auto [r, n] = decode(neolib::leb128::LEB128(s), false, sd); MC_CHECK(r == s && n == std::max<std::size_t>(1, (ubits(s) + 6) / 7), "LEB128", sd); }
}
MC_SCENARIO("codings/integers near boundaries") { auto const& v = values(); auto const part = choose(64); mc::heavy(); for (std::size_t k = part; k < v.size(); k += 64) { integer(v[k]); mc::op(); mc::validated(); } }
MC_SCENARIO("codings/small integers") { auto const part = choose(64); mc::heavy(); std::uint64_t const n = mc::tier(1 << 9, 1 << 13); for (std::uint64_t k = part * n; k < (part + 1) * n; ++k) { integer(k); integer(0 - k); mc::op(); mc::validated(); } }
MC_SCENARIO("codings/texts")
{
    std::vector<char> const letters{ '0', '1', '9', '-', '+', ' ', 'x', '.', 'e' };
    mc::words(letters, 2, mc::tier(6, 7), [](auto const& w)
    {
        S const s = mc::text(w); std::string_view const v{ s }; std::size_t i = 0; bool const neg = s[0] == '-', sign = neg || s[0] == '+'; if (!s.empty() && sign) ++i; std::size_t e = i; while (e < s.size() && isdigit(s[e])) ++e; bool const integer = e > i && e == s.size();
        std::int64_t const value = e > i ? std::stoll(s.substr(i, e - i)) * (neg ? -1 : 1) : 0; MC_CHECK(neolib::string_to_int32(v) == value && neolib::string_to_int32(s) == value && neolib::string_to_int64(v) == value && neolib::string_to_int64(s) == value, "leading integer", "'", s, "': ", neolib::string_to_int32(v), " ", neolib::string_to_int32(s)); if (!sign || neg) MC_CHECK(neolib::string_to_uint32(v) == (neg ? 0 : value) && neolib::string_to_uint64(s) == std::uint64_t(neg ? 0 : value), "leading unsigned", "'", s, "'");
        // [sign] digits [. digits] [e [sign] digits] denotes a number; other text does not
        std::size_t p = e; bool real = e > i; if (p < s.size() && s[p] == '.') { ++p; auto f = p; while (p < s.size() && isdigit(s[p])) ++p; if (p == f) real = false; } if (p < s.size() && s[p] == 'e') { ++p; if (p < s.size() && (s[p] == '-' || s[p] == '+')) ++p; auto f = p; while (p < s.size() && isdigit(s[p])) ++p; if (p == f) real = false; } real = real && p == s.size();
        bool threw = false; neolib::number_t n; try { n = neolib::string_to_number(v); } catch (neolib::string_to_number_failure const&) { threw = true; }
        if (integer) MC_CHECK(!threw && is(n, std::int32_t(value)), "number", "'", s, "'"); else if (real) { double const d = std::strtod(s.c_str(), nullptr); if (auto x = s.find('e'); x != S::npos && std::abs(std::strtod(s.c_str() + x + 1, nullptr)) > 250) return; MC_CHECK(!threw && std::holds_alternative<double>(n) && std::abs(std::get<double>(n) - d) <= std::abs(d) * 1e-15, "number", "'", s, "' ", threw); MC_CHECK(std::abs(neolib::string_to_double(s) - d) <= std::abs(d) * 1e-15 && neolib::string_to_double(v) == neolib::string_to_double(s), "double", "'", s, "'"); } else if (s.find_first_not_of("0123456789+-.e") != S::npos || s.empty() || s.find_first_of("0123456789") == S::npos) MC_CHECK(threw, "malformed number", "'", s, "'");
    });
}
MC_SCENARIO("codings/doubles")
{
    auto const part = choose(41); mc::heavy(); int const exponent = int(part) * 30 - 600; int const n = mc::tier(200, 3000);
    for (int m = -n; m <= n; ++m) { double const d = std::ldexp(double(m), exponent / 4); char b[512]; auto close = [&](double x) { return std::abs(x - d) <= std::abs(d) * 1e-15; }; for (int p : { 0, 1, 6, 17 }) { snprintf(b, sizeof b, "%.*f", p ? p : 6, d); MC_CHECK(neolib::double_to_string<char>(d, p) == b, "fixed", b); snprintf(b, sizeof b, "%.*e", p ? p : 6, d); MC_CHECK(neolib::double_to_string<char>(d, p, false) == b, "scientific", b); } MC_CHECK(close(neolib::string_to_double(neolib::double_to_string<char>(d, 17, false))), "double round trip", b); S const f = neolib::double_to_string<char>(d, 3, true, 400, ' '); snprintf(b, sizeof b, "%.3f", d); MC_CHECK(f == S(400 - strlen(b), ' ') + b, "width", b); mc::op(); mc::validated(); }
}
MC_SCENARIO("codings/crc") { auto const a = choose(256); mc::heavy(); std::uint8_t m[300]; auto crc = [&](std::uint32_t n) { std::uint32_t c = 0xFFFFFFFF; for (std::uint32_t i = 0; i < n; ++i) { c ^= m[i]; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (c & 1 ? 0xEDB88320 : 0); } return ~c; }; auto test = [&](std::uint32_t n) { MC_CHECK(neolib::crc32(m, n) == crc(n), "crc32", n, " bytes"); mc::op(); mc::validated(); }; m[0] = std::uint8_t(a); test(0); test(1); for (int b = 0; b < 256; ++b) { m[1] = std::uint8_t(b); test(2); for (int c = 0; c < 256; c += mc::tier(17, 1)) { m[2] = std::uint8_t(c); test(3); } } for (std::uint32_t i = 0; i < 300; ++i) { m[i] = std::uint8_t(i * a + 7); test(i + 1); } }
MC_SCENARIO("codings/uuid")
{
    std::vector<std::uint32_t> const parts1{ 0, 1, 0x00ABCDEF, 0x80000000, 0xFFFFFFFF }; std::vector<std::uint16_t> const parts{ 0, 1, 0x0A0B, 0xFFFF }; auto const a = choose(std::uint32_t(parts1.size())), b = choose(std::uint32_t(parts.size())); mc::heavy(); std::vector<neolib::uuid> all;
    for (auto c : parts) for (auto d : parts) for (int pos = 0; pos < 6; ++pos) for (std::uint8_t v : { 0, 1, 0xF0, 0xFF }) { neolib::uuid u{ parts1[a], parts[b], c, d, {} }; u.part5[std::size_t(pos)] = v; char t[64]; snprintf(t, sizeof t, "%08X-%04X-%04X-%04X-%02X%02X%02X%02X%02X%02X", u.part1, u.part2, u.part3, u.part4, u.part5[0], u.part5[1], u.part5[2], u.part5[3], u.part5[4], u.part5[5]);
        MC_CHECK(neolib::uuid_to_string(u) == t, "to text", t, " ", neolib::uuid_to_string(u)); MC_CHECK(neolib::make_uuid(t) == u, "from text", t); S low = t; for (auto& x : low) x = char(tolower(x)); MC_CHECK(neolib::make_uuid(low) == u, "from text", low); std::istringstream in{ S(t) + " 7 " }; neolib::uuid r; int rest = 0; in >> r >> rest; MC_CHECK(r == u && rest == 7, "stream", t); std::ostringstream o; o << u << " " << 31; MC_CHECK(o.str() == S(t) + " 31", "stream", o.str()); all.push_back(u); mc::op(); mc::validated(); }
    for (auto const& x : all) for (auto const& y : all) { auto const sx = neolib::uuid_to_string(x), sy = neolib::uuid_to_string(y); MC_CHECK((x == y) == (sx == sy) && (x < y) == (sx < sy) && (x != y) == (sx != sy) && (x >= y) == (sx >= sy), "order", sx, " ", sy); if (x == y) MC_CHECK(std::hash<neolib::uuid>{}(x) == std::hash<neolib::uuid>{}(y) && neolib::quick_uuid_hash{}(x) == neolib::quick_uuid_hash{}(y), "hash", sx); }
}
MC_SCENARIO("codings/uuid generation") { auto const pos = choose(16); auto const other = choose(2) * 0xFF; std::unordered_set<neolib::uuid> seen; std::memset(key, int(other), 16); keyFails = false; for (int v = 0; v < 256; ++v) { key[pos] = std::uint8_t(v); auto const u = neolib::generate_uuid(); MC_CHECK((u.part3 & 0xF000) == 0x4000 && (u.part4 & 0xC000) == 0x8000, "version bits", neolib::uuid_to_string(u)); seen.insert(u); } std::size_t const want = pos == 7 ? 16 : pos == 9 ? 64 : 256; MC_CHECK(seen.size() == want, "entropy lost", "byte ", pos, ": ", seen.size()); keyFails = true; bool threw = false; try { (void)neolib::generate_uuid(); } catch (neolib::unable_to_generate_uuid const&) { threw = true; } keyFails = false; MC_CHECK(threw, "failure reported", ""); mc::validated(); }
