// @props J01
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// Well-formed JSON: every text over several alphabets that RFC 8259 accepts yields the tree it denotes, as do its
// rewritten form and the same text in the relaxed syntax; through streams of every kind.
#include "json_ref.hpp"
#include <neolib/neolib.hpp>
#include <iostream>
#include <neolib/file/json.hpp>
#include <unistd.h>
using mc::choose; using ref::S; using ref::J;
#include "json_tree.hpp"
typedef neolib::json std_json; typedef neolib::basic_json<neolib::json_syntax::StandardNoKeywords> strict_json;
template <typename Json> static J read_as(S const& text, const char* who, S const& original)
{
    Json j; std::istringstream i{ text }; bool const ok = j.read(i, false); MC_CHECK(ok, "rejected", who, " ", mc::hex(text), " '", text, "': ", j.error_text(), " (from '", original, "')"); return tree(j.root());
}
template <typename Json> static void agrees(S const& text, J const& want, const char* who)
{
    Json j; std::istringstream i{ text }; bool const ok = j.read(i, false); MC_CHECK(ok, "rejected", who, " '", text, "': ", j.error_text()); auto const got = tree(j.root()); MC_CHECK(got == want, "tree", who, " '", text, "' is ", ref::show(got), " expected ", ref::show(want)); flat(j, want, text);
    for (S const& indent : { "  ", "" }) { std::ostringstream o; j.write(o, indent); auto const again = read_as<Json>(o.str(), "rewritten", text); MC_CHECK(again == want, "round trip", who, " '", text, "' written as '", o.str(), "' is ", ref::show(again), " expected ", ref::show(want)); if (want.kind != J::word) { auto const strict = ref::parse(o.str(), true); MC_CHECK(strict.tree && *strict.tree == want, "written form", who, " '", text, "' written as '", o.str(), "'"); } }
}
static void check(S const& text)
{
    auto const strict = ref::parse(text, false); if (strict.tree && !strict.open) { agrees<strict_json>(text, *strict.tree, "strict"); agrees<neolib::rjson>(text, *strict.tree, "relaxed"); agrees<neolib::fast_json>(text, *strict.tree, "fast"); } auto const r = strict.tree ? strict : ref::parse(text, true); if (r.tree && !r.open) agrees<std_json>(text, *r.tree, "standard");
}
MC_SCENARIO("json/characters") { ref::characters(check); }
MC_SCENARIO("json/tokens") { ref::tokens(check); }
MC_SCENARIO("json/members") { ref::members(check); }
MC_SCENARIO("json/strings") { ref::strings(check); }
MC_SCENARIO("json/numbers") { ref::numbers(check); }
MC_SCENARIO("json/large-numbers") { ref::large_numbers(check); }
MC_SCENARIO("json/shapes") { ref::shapes(check); }
MC_SCENARIO("json/mutations") { ref::mutations(check); }
// a comment means what a space means, wherever a space may be
template <typename Json> static std::optional<J> relaxed_tree(S const& text) { Json j; std::istringstream i{ text }; if (!j.read(i)) return {}; return tree(j.root()); }
static bool worded(J const& j) { if (j.kind == J::word || j.kind == J::none) return true; for (auto const& [n, v] : j.in) if (worded(v)) return true; return false; }
template <typename Json> static void comments(ref::L const& words)
{
    auto with = [&](S const& sep) { S r; for (auto const& w : words) r += sep + w; return r + sep; }; auto const spaced = relaxed_tree<Json>(with(" ")); for (S const& sep : { "/*,*/", "/**/", "//]\n", " /* x */ ", "/* / * */", "/***/", "/*/,*/" }) { auto const got = relaxed_tree<Json>(with(sep)); MC_CHECK(got == spaced, "comments", "'", with(sep), "' is ", got ? ref::show(*got) : "rejected", " with spaces ", spaced ? ref::show(*spaced) : "rejected"); }
    if (!std::is_same_v<Json, neolib::fjson> && spaced && !worded(*spaced)) { std::ostringstream o; Json j; std::istringstream i{ with(" ") }; j.read(i); j.write(o); auto const again = relaxed_tree<Json>(o.str()); MC_CHECK(again == spaced, "relaxed round trip", "'", with(" "), "' written as '", o.str(), "' is ", again ? ref::show(*again) : "rejected"); }
}
MC_SCENARIO("json/relaxed-comments") { static ref::L const a{ "{", "}", "[", "]", ",", ":", "\"a\"", "b", "1", "'q'", "2.5" }; mc::words(a, 2, mc::tier(5, 6), [](auto const& w) { comments<neolib::rjson>(w); comments<neolib::fjson>(w); }); }
