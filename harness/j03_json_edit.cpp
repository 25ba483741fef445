// @props J03
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// Every sequence of edits of a small document (members by name, elements, node-level insertion and removal, assignment,
// values moved between nodes, renaming), with the lookup structures built or not built at every point, is run on the real
// document and on a plain tree; at the end every way to look at the document is compared with the tree.
#include "json_ref.hpp"
#include <neolib/neolib.hpp>
#include <iostream>
#include <neolib/file/json.hpp>
using mc::choose; using ref::S; using ref::J;
#include "json_tree.hpp"
using namespace neolib;
typedef json_value V; typedef V::value_type T;
static J num(int n) { J j; j.kind = J::number; j.num = n; return j; }
static J str(S const& s) { J j; j.kind = J::string; j.text = s; return j; }
static J of(J::kind_t k) { J j; j.kind = k; return j; }
static S trail;
struct node { V* v; J* m; };
static void nodes(V& v, J& m, int depth, std::vector<node>& out) { out.push_back({ &v, &m }); if (depth > 0) { std::size_t n = 0; for (auto& c : v) nodes(c, m.in[n++].second, depth - 1, out); } }
static J* child(J& m, S const& k) { for (auto& [n, c] : m.in) if (n == k) return &c; return nullptr; }
static void set(V& v, J& m, unsigned what)
{
    switch (what) { case 0: v = T{ 7 }; m = num(7); break; case 1: v = T{ json_string{ "s" } }; m = str("s"); break; case 2: v = T{ json_object{} }; m = of(J::object); break; default: v = T{ json_array{} }; m = of(J::array); }
}
static T fresh_value(unsigned what, J& m) { if (what == 0) { m = num(5); return T{ 5 }; } if (what == 1) { m = of(J::object); return T{ json_object{} }; } m = of(J::array); return T{ json_array{} }; }
static void look(V const& v) { if (v.type() == json_type::Object) { mc::op(); v.as<json_object>().has("a"); } else if (v.type() == json_type::Array) { mc::op(); v.as<json_array>().begin(); } }
static S at_path(J const& m, S const& path, J const*& found)
{
    found = &m; std::size_t i = 0; if (path.empty() || path[0] == '.') return "";
    while (i < path.size()) { auto e = std::min(path.find('.', i), path.size()); auto c = found->kind == J::object ? child(const_cast<J&>(*found), path.substr(i, e - i)) : nullptr; if (!c) { found = nullptr; return ""; } found = c; i = e + 1; }
    return "";
}
static bool duplicates(J const& m) { for (std::size_t i = 0; i < m.in.size(); ++i) { if (m.kind == J::object) for (std::size_t j = 0; j < i; ++j) if (m.in[i].first == m.in[j].first) return true; if (duplicates(m.in[i].second)) return true; } return false; }
static void all_checks(json& j, J const& m)
{
    auto const got = tree(j.croot()); MC_CHECK(got == m, "tree", trail, ": ", ref::show(got), " expected ", ref::show(m)); flat(j, m, trail); flat(j, m, trail + " again");
    if (!duplicates(m)) for (S const& p : { S{ "a" }, S{ "b" }, S{ "c" }, S{ "a.b" }, S{ "b.a" }, S{ "a.a.c" }, S{ "a." }, S{ "" }, S{ "a..b" }, S{ ".a" } }) { J const* want; at_path(m, p, want); try { auto const& v = std::as_const(j).at(p); MC_CHECK(want && tree(v) == *want && &v == &j.at(p), "path", trail, ": at(", p, ") is ", ref::show(tree(v))); } catch (json_path_not_found const&) { MC_CHECK(!want, "path", trail, ": at(", p, ") not found"); } }
    std::ostringstream o; j.write(o); json again; std::istringstream i{ o.str() }; bool const ok = again.read(i); MC_CHECK(ok, "written", trail, ": '", o.str(), "' ", again.error_text()); auto const back = tree(again.croot()); MC_CHECK(back == m, "written", trail, ": '", o.str(), "'"); mc::validated();
}
static void step(json& j, J& m)
{
    std::vector<node> at; nodes(j.root(), m, 2, at); auto const n = choose(std::uint32_t(at.size())); V& v = *at[n].v; J& t = *at[n].m; mc::op(); trail += " " + std::to_string(n);
    auto log = [](S const& s) { trail += "." + s; };
    if (t.kind != J::object && t.kind != J::array) { unsigned w = choose(3); log("set" + std::to_string(w + 1)); set(v, t, w + 1); return; }
    unsigned const op = choose(t.kind == J::object ? 16 : 15);
    switch (op)
    {
    case 0: case 1: case 2: log("=" + std::to_string(op)); set(v, t, op + 1); return;
    case 3: log("look"); look(v); return;
    case 4: log("clear"); v.clear(); t.in.clear(); return;
    case 5: if (t.in.empty()) throw mc::prune{}; log("pop"); v.pop_back(); t.in.pop_back(); return;
    case 6: case 7: { log("from" + std::to_string(op)); if (op == 6 ? t.in.empty() : at.size() < 2 || n + 1 == at.size() || !t.in.empty()) throw mc::prune{}; if (op == 6) { auto& c = *v.last_child(); J copy = t.in.back().second; copy.in.clear(); v = std::move(*c); t = copy; } else { auto& o = at.back(); if (o.m->kind != J::object && o.m->kind != J::array) throw mc::prune{}; J copy = *o.m; copy.in.clear(); v = std::move(**o.v); t = copy; } return; }
    default:;
    }
    if (t.kind == J::object)
    {
        auto& o = v.as<json_object>(); J c;
        switch (op)
        {
        case 8: case 9: case 10: { S const k = op == 10 ? "c" : "a"; log("[" + k + "]" + std::to_string(op)); T value = fresh_value(op == 9 ? 2 : 0, c); auto const before = v.size(); auto& r = o[k]; MC_CHECK(v.size() == before + !child(t, k), "member", trail); if (!child(t, k)) t.in.emplace_back(k, J{}); std::size_t i = 0; for (auto& e : v) { if (&e == &r) { MC_CHECK(t.in[i].first == k, "member", trail); t.in[i].second = c; } ++i; } r = std::move(value); return; }
        case 11: { log("[b]"); auto& r = o["b"]; if (!child(t, "b")) { r = T{ json_object{} }; t.in.emplace_back("b", of(J::object)); } return; }
        case 12: case 13: { S const k = op == 12 ? "a" : "c"; log("emplace " + k); T value = fresh_value(op == 12 ? 0 : 1, c); auto& r = v.emplace_back(std::move(value)); r.set_name(json_string{ k }); t.in.emplace_back(k, c); return; }
        case 14: if (t.in.empty()) throw mc::prune{}; log("rename"); v.first_child()->set_name(json_string{ "r" }); t.in[0].first = "r"; return;
        default: { log("at"); if (t.in.empty()) throw mc::prune{}; auto& r = o.at(t.in.back().first); J* which = nullptr; std::size_t n = 0; for (auto& c : v) { if (&c == &r) which = &t.in[n].second; ++n; } MC_CHECK(which != nullptr, "at", trail); set(r, *which, 0); return; }
        }
    }
    auto& a = v.as<json_array>(); J c;
    switch (op)
    {
    case 8: case 9: case 10: { log("push" + std::to_string(op)); auto& r = a.push_back(fresh_value(op - 8, c)); t.in.emplace_back("", c); MC_CHECK(&r == v.last_child(), "push_back", trail); return; }
    case 11: { log("node push"); v.push_back(fresh_value(0, c)); t.in.emplace_back("", c); return; }
    case 12: { log("emplace"); v.emplace_back(fresh_value(2, c)); t.in.emplace_back("", c); return; }
    case 13: if (t.in.empty()) throw mc::prune{}; log("back"); set(a.back(), t.in.back().second, 1); return;
    default: if (t.in.empty()) throw mc::prune{}; log("[0]"); set(a[0], t.in[0].second, 0); return;
    }
}
static void edits(char const* text, int depth)
{
    trail = S{ text } + ":"; json j; J m; if (*text) { std::istringstream i{ text }; MC_CHECK(j.read(i), "read", text); m = *ref::parse(text, false).tree; } else { j.root() = T{ json_object{} }; m = of(J::object); }
    auto const before = choose(2); if (before) for (auto i = j.begin(); i != j.end(); ++i) look(i.value());
    for (int d = 0; d < depth; ++d) step(j, m);
    all_checks(j, m);
}
MC_SCENARIO("edit/new") { edits("", mc::tier(4, 5)); }
MC_SCENARIO("edit/array") { edits("[1,[],2]", mc::tier(3, 4)); }
MC_SCENARIO("edit/read") { edits("{\"a\":[1,{\"c\":2}],\"b\":{\"a\":null}}", 3); }
// numbers through every arithmetic type; conversions that do not exist
MC_SCENARIO("edit/values")
{
    json j; auto& r = j.root(); r = T{ json_object{} }; auto& o = r.as<json_object>(); o["d"] = T{ 2.5 }; o["i"] = T{ std::int32_t(-3) }; o["u"] = T{ std::uint32_t(4000000000u) }; o["l"] = T{ std::int64_t(-5000000000) }; o["m"] = T{ std::uint64_t(18000000000000000000u) }; o["s"] = T{ json_string{ "7" } }; o["t"] = T{ true }; o["n"] = T{ json_null{} }; o["k"] = T{ json_keyword{ "w" } }; o["o"] = T{ json_object{} }; o["a"] = T{ json_array{} }; mc::op();
    auto const& c = std::as_const(o);
    auto number = [&]<typename N>(N, const char* k, N want) { MC_CHECK(c.at(k).template as<N>() == want, "as", k); N const d = 1; MC_CHECK(c.at_or(k, d) == want && c.at_or("none", d) == d, "at_or", k); };
    number(double{}, "d", 2.5); number(double{}, "i", -3.0); number(double{}, "u", 4e9); number(double{}, "l", -5e9); number(double{}, "m", 1.8e19); number(std::int64_t{}, "i", std::int64_t(-3)); number(std::int64_t{}, "u", std::int64_t(4000000000)); number(std::int64_t{}, "l", std::int64_t(-5000000000)); number(std::uint64_t{}, "u", std::uint64_t(4000000000)); number(std::uint64_t{}, "m", std::uint64_t(18000000000000000000u)); number(std::int32_t{}, "i", -3); number(std::int32_t{}, "d", 2); number(bool{}, "t", true); number(std::uint32_t{}, "u", 4000000000u);
    for (auto k : { "s", "n", "k", "o", "a" }) { bool thrown = false; try { c.at(k).as<double>(); } catch (json_value::bad_conversion const&) { thrown = true; } MC_CHECK(thrown, "conversion", k, " to double"); thrown = false; try { c.at(k).as<bool>(); } catch (json_value::bad_conversion const&) { thrown = true; } MC_CHECK(thrown, "conversion", k, " to bool"); }
    for (auto k : { "d", "i", "u", "l", "m", "t", "n", "k", "o", "a" }) { bool thrown = false; try { o.at(k).as<json_string>(); } catch (std::bad_variant_access const&) { thrown = true; } MC_CHECK(thrown, "string", k); }
    MC_CHECK(c.at("s").as<json_string>() == "7" && c.at("s").text() == "7" && c.at("k").text() == "w", "text", ""); MC_CHECK(c.at_or("s", json_string{ "x" }) == "7" && c.at_or("none", json_string{ "x" }) == "x", "at_or", "string");
    for (auto k : { "d", "i", "u", "l", "m", "s", "t", "n", "k", "o", "a" }) MC_CHECK(o.has(k) && &o.at(k) == &j.at(k) && c.at(k).name() == k && c.at(k).has_parent() && &c.at(k).parent() == &r && !c.at(k).is_root(), "member", k); MC_CHECK(r.is_root() && r.size() == 11 && r.is_populated_composite() && !r.is_empty_composite() && c.at("o").is_empty_composite() && c.at("a").is_composite() && !c.at("d").is_composite(), "shape", "");
    json_object loose; bool thrown = false; try { loose["x"]; } catch (json_no_owning_node const&) { thrown = true; } MC_CHECK(thrown, "no owner", "");
    std::size_t visits = 0; std::as_const(j).visit([&](auto&&) { ++visits; }); MC_CHECK(visits == 12, "visit", visits); visits = 0; j.visit([&](auto&&) { ++visits; }); MC_CHECK(visits == 12, "visit", visits); mc::validated();
}
