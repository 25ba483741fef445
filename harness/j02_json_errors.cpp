// @props J02
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// Texts that are not JSON: every text over several alphabets that RFC 8259 does not accept is rejected with a position
// inside the text; no text harms the parser in any syntax; the document object reads the next document correctly.
#include "json_ref.hpp"
#include <neolib/neolib.hpp>
#include <iostream>
#include <neolib/file/json.hpp>
#include <unistd.h>
#include <sys/stat.h>
using mc::choose; using ref::S; using ref::J;
#include "json_tree.hpp"
typedef neolib::json std_json; typedef neolib::basic_json<neolib::json_syntax::StandardNoKeywords> strict_json;
static S const good = "{\"a\": [1, \"b\\n\"], \"c\": {}}";
template <typename Json> static void reusable(Json& j, S const& after)
{
    std::istringstream i{ Json::syntax == neolib::json_syntax::Functional ? "{\"a\": [1 \"b\\n\"] \"c\": {}}" : good }; bool const ok = j.read(i); MC_CHECK(ok, "not reusable", "after '", after, "': ", j.error_text()); auto const got = tree(j.root()); auto const want = *ref::parse(good, false).tree; MC_CHECK(got == want, "not reusable", "after '", after, "' '", good, "' is ", ref::show(got)); MC_CHECK(j.error_text().empty(), "not reusable", "error text left after '", after, "'");
}
template <typename Json> static void rejects(S const& text, const char* who)
{
    Json j; std::istringstream i{ text }; bool const ok = j.read(i); MC_CHECK(!ok, "accepted", who, " '", text, "' (", mc::hex(text), ") as ", ref::show(tree(j.root()))); MC_CHECK(!j.error_text().empty(), "no error text", who, " '", text, "'");
    if (!text.empty()) { auto const& e = j.error_text(); unsigned line = 0, column = 0; auto const p = e.rfind("line "); MC_CHECK(p != S::npos && sscanf(e.c_str() + p, "line %u, col %u", &line, &column) == 2, "no location", who, " '", text, "': ", e); std::size_t b = 0; unsigned n = 1; while (n < line) { auto const q = text.find('\n', b); if (q == S::npos) break; b = q + 1; ++n; } MC_CHECK((n == line && column >= 1) || (line == n + 1 && column <= 2), "line", who, " '", text, "': ", e); auto const end = text.find('\n', b); if (n == line) MC_CHECK(column <= (end == S::npos ? text.size() : end) - b + 2, "column", who, " '", text, "': ", e); }
    reusable(j, text);
}
template <typename Json> static void survives(S const& text) { Json j; std::istringstream i{ text }; bool const ok = j.read(i, true); if (ok) { tree(j.croot()); std::ostringstream o; j.write(o); } else MC_CHECK(!j.error_text().empty(), "no error text", " '", text, "'"); reusable(j, text); }
template <bool Others> static void check(S const& text)
{
    auto const strict = ref::parse(text, false); if (!strict.tree && !strict.open) rejects<strict_json>(text, "strict"); auto const bare = strict.tree ? strict : ref::parse(text, true); if (!bare.tree && !bare.open) rejects<std_json>(text, "standard"); else if (bare.open || Others) survives<std_json>(text); if (Others) { survives<neolib::rjson>(text); survives<neolib::fjson>(text); }
}
MC_SCENARIO("json-errors/characters") { ref::characters(check<false>); }
MC_SCENARIO("json-errors/tokens") { ref::tokens(check<false>); }
MC_SCENARIO("json-errors/members") { ref::members(check<false>); }
MC_SCENARIO("json-errors/strings") { ref::strings(check<true>); }
MC_SCENARIO("json-errors/numbers") { ref::numbers(check<false>, mc::tier(5, 6)); }
MC_SCENARIO("json-errors/mutations") { ref::mutations(check<true>); }
MC_SCENARIO("json-errors/relaxed") { ref::L const a{ "{", "}", "[", "]", ",", ":", "\"", "'", "a", "1", "/", "*", " ", "\n", "\\", "." }; mc::words(a, 2, mc::tier(5, 6), [](auto const& w) { auto const t = mc::text(w); survives<neolib::rjson>(t); survives<neolib::fjson>(t); }); }
MC_SCENARIO("json-errors/relaxed-members") { ref::L const a{ "{", "}", "[", "]", ",", ":", "a", "b:", "'c'", "\"d\":", "1", "//", "\n", "/*", "*/", " " }; mc::words(a, 2, mc::tier(4, 5), [](auto const& w) { auto const t = mc::text(w); survives<neolib::rjson>("{" + t + "}"); survives<neolib::fjson>("{" + t + "}"); survives<neolib::rjson>("[" + t + "]"); survives<neolib::fjson>("[" + t + "]"); }); }
MC_SCENARIO("json-errors/bytes") { auto const a = choose(256); mc::heavy(); for (int b = 0; b < 256; ++b) for (S const& t : { S{ char(a) }, S{ char(a), char(b) }, S{ '"', char(a), char(b), '"' }, S{ '[', char(a), char(b), ']' }, S{ '1', char(a), char(b) }, S{ char(a), char(b), '1' } }) { check<true>(t); mc::op(); mc::validated(); } }
MC_SCENARIO("json-errors/utf8") { auto const a = choose(256); mc::heavy(); for (int b = 0; b < 256; ++b) for (int c : { 0x22, 0x80, 0x9F, 0xA0, 0xBF, 0xC0 }) { S const t = S{ '"' } + char(a) + char(b) + char(c) + "\""; auto const r = ref::parse(t, false); auto const known = [&] { std::size_t i = 0; while (i < t.size()) { unsigned char x = t[i]; int n = x < 0x80 ? 0 : x >= 0xC2 && x < 0xE0 ? 1 : x >= 0xE0 && x < 0xF0 ? 2 : x >= 0xF0 && x < 0xF5 ? 3 : -1; if (n < 0) return false; for (int k = 1; k <= n; ++k) { if (i + k >= t.size()) return false; unsigned char y = t[i + k]; if (y < 0x80 || y > 0xBF || (k == 1 && ((x == 0xE0 && y < 0xA0) || (x == 0xF0 && y < 0x90) || (x == 0xF4 && y > 0x8F)))) return false; } i += n + 1; } return true; }(); std_json j; std::istringstream i{ t }; MC_CHECK(j.read(i, true) == (r.tree && known), "utf-8 validation", mc::hex(t), ": ", j.error_text()); mc::op(); mc::validated(); } }
MC_SCENARIO("json-errors/depth")
{
    static unsigned const depths[] = { 1, 2, 100, 5000, 200000 }; auto const n = depths[choose(5)]; auto const kind = choose(4); S o, c; for (unsigned i = 0; i < n; ++i) { o += kind == 0 || (kind == 2 && i % 2) ? "[" : "{\"a\":"; c += kind == 0 || (kind == 2 && (n - 1 - i) % 2) ? "]" : "}"; }
    std_json j; { std::istringstream i{ o + (kind == 0 ? "" : "1") + (kind == 3 ? "" : c) }; MC_CHECK(j.read(i) == (kind != 3), "depth", n, " ", kind, ": ", j.error_text()); if (kind != 3) { unsigned d = 0; auto const* v = &j.croot(); for (; v->has_children(); v = v->first_child()) ++d; MC_CHECK(d == (kind == 0 ? n - 1 : n), "depth", d); std::size_t count = 0; for (auto k = j.cbegin(); k != j.cend(); ++k) ++count; MC_CHECK(count == (kind == 0 ? n : n + 1), "count", count); } } reusable(j, "depth"); mc::validated();
}
namespace { struct pipe_like : std::streambuf { S s; std::size_t at = 0, step; char b[8192]; pipe_like(S const& s, std::size_t step) : s{ s }, step{ step } {} int_type underflow() override { auto n = std::min(step, s.size() - at); if (n == 0) return traits_type::eof(); std::copy_n(s.begin() + at, n, b); at += n; setg(b, b, b + n); return (unsigned char)b[0]; } }; }
MC_SCENARIO("json-errors/streams")
{
    static std::size_t const sizes[] = { 0, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 5000 }; auto const n = sizes[choose(11)]; auto const bad = choose(2); S t = n == 1 ? "7" : n == 0 ? "" : "\"" + S(n - 2, 'x') + "\""; if (bad && n) t.back() = '?';
    S d = "/tmp/mc-json-XXXXXX"; MC_CHECK(mkdtemp(d.data()), "scratch", ""); S const file = d + "/f.json"; struct cleaner { S d, f; ~cleaner() { unlink(f.c_str()); unlink((d + "/g.json").c_str()); rmdir(d.c_str()); } } cl{ d, file }; { std::ofstream o{ file, std::ios::binary }; o << t; }
    auto const want = ref::parse(t, false); auto judge = [&](std_json& j, bool ok, const char* who) { MC_CHECK(ok == !!want.tree, "stream", who, " ", n, ": ", j.error_text()); if (ok) MC_CHECK(tree(j.root()) == *want.tree, "stream", who, " ", n); else MC_CHECK(!j.error_text().empty(), "no error text", who); reusable(j, who); };
    for (std::size_t step : { 1, 7, 1024, 8192 }) { pipe_like p{ t, step }; std::istream i{ &p }; std_json j; judge(j, j.read(i), "pipe"); } { std_json j; judge(j, j.read(file), "file"); } { std::istringstream i{ t }; std_json j; judge(j, j.read(i), "string"); }
    try { std_json j{ file }; MC_CHECK(!!want.tree, "constructor", ""); MC_CHECK(j.write(d + "/g.json"), "write", ""); std_json k{ d + "/g.json" }; MC_CHECK(tree(k.root()) == *want.tree, "file round trip", n); } catch (neolib::json_error const& e) { MC_CHECK(!want.tree && *e.what(), "constructor", e.what()); }
    std_json j; MC_CHECK(!j.read(d + "/none.json") && !j.error_text().empty(), "missing file", ""); reusable(j, "missing"); MC_CHECK(!j.write(d + "/none/none.json"), "unwritable file", ""); std::istringstream failed{ "1" }; failed.setstate(std::ios::failbit); MC_CHECK(!j.read(failed), "failed stream", ""); reusable(j, "failed"); mc::validated();
}
