// @props G02
// @src src/core/string_utils.cpp src/core/reference_counted.cpp src/core/lifetime.cpp
// @link -lboost_locale
// Easing: every named easing, every pair and group of them and partitions, at every point of a grid, against the
// definitions, computed from the name.
#include <map>
#include <set>
#include <span>
#include <array>
#include <optional>
#include <neolib/core/easing.hpp>
#include "mc.hpp"
using namespace neolib; using namespace neolib::math::easing_functions; typedef std::string S; using mc::choose; typedef long double R;
namespace
{
    static R const PI = acosl(-1.0L);
    R in(S const& c, R t);
    R bounce_out(R t) { R const n = 7.5625L; if (t < 1 / 2.75L) return n * t * t; R const mid[] = { 1.5L, 2.25L, 2.625L }, base[] = { .75L, .9375L, .984375L }, end[] = { 2 / 2.75L, 2.5L / 2.75L, 2 }; int i = 0; while (t >= end[i]) ++i; R const d = t - mid[i] / 2.75L; return n * d * d + base[i]; }
    R in(S const& c, R t)
    {
        if (c == "Linear") return t; if (c == "Quad") return powl(t, 2); if (c == "Cubic") return powl(t, 3); if (c == "Quart") return powl(t, 4); if (c == "Quint") return powl(t, 5);
        if (c == "Sine") return 1 - cosl(t * PI / 2); if (c == "Expo") return exp2l(10 * t - 10); if (c == "Circ") return 1 - sqrtl(1 - t * t); if (c == "Back") return 2.70158L * t * t * t - 1.70158L * t * t;
        if (c == "Bounce") return 1 - bounce_out(1 - t); if (c == "Elastic") return t == 0 ? 0 : t == 1 ? 1 : -exp2l(10 * t - 10) * sinl((t - 1 - .0625L) * 2 * PI / .25L); if (c == "Step") return t < .5L ? 0 : 1;
        return -1;
    }
    R out(S const& c, R t) { return c == "Step" ? 1 - in(c, t) : 1 - in(c, 1 - t); }
    // an easing by its name: [Reversed][Inverted][In][Out] or [Out][In], class
    struct named { bool reversed = false, inverted = false; S direction, kind; };
    named parse(S n)
    {
        named r; auto take = [&](char const* p) { S const s = p; if (n.compare(0, s.size(), s) == 0) { n.erase(0, s.size()); return true; } return false; };
        r.reversed = take("Reversed"); r.inverted = take("Inverted"); if (take("InOut")) r.direction = "InOut"; else if (take("OutIn")) r.direction = "OutIn"; else if (take("In")) r.direction = "In"; else if (take("Out")) r.direction = "Out"; r.kind = n; return r;
    }
    R base(named const& n, R t)
    {
        auto const& c = n.kind; if (c == "Zero") return 0; if (c == "One") return 1; if (c == "Linear") return t; auto const& d = n.direction; if (d == "In") return in(c, t); if (d == "Out") return out(c, t);
        R const u = t < .5L ? 2 * t : 2 * t - 1; bool const first = t < .5L; R const v = (d == "InOut") == first ? in(c, u) : out(c, u); return c == "Step" ? v : first ? v / 2 : (1 + v) / 2;
    }
    R eased(named const& n, R t) { R const v = base(n, n.reversed ? 1 - t : t); return n.inverted ? 1 - v : v; }
    std::vector<std::pair<S, easing>> const& names() { static auto const r = [] { std::vector<std::pair<S, easing>> v; for (auto const& e : enum_enumerators<easing>()) v.emplace_back(e.second().to_std_string(), easing(e.first())); return v; }(); return r; }
    std::vector<S> const& plain() { static auto const r = [] { std::vector<S> v{ "Linear" }; for (auto c : { "Quad", "Cubic", "Quart", "Quint", "Sine", "Expo", "Circ", "Elastic", "Back", "Bounce", "Step" }) for (auto d : { "In", "Out", "InOut", "OutIn" }) v.push_back(S(d) + c); v.push_back("Zero"); v.push_back("One"); return v; }(); return r; }
    easing by_name(S const& s) { return string_to_enum<easing>(s); }
    template <typename T> T tolerance() { return sizeof(T) == 4 ? T(4e-6) : T(1e-13); }
    template <typename T> bool near(T a, R b) { return fabsl(R(a) - b) <= R(tolerance<T>()) * (1 + fabsl(b)); }
    int grid() { return mc::tier(96, 960); }
    template <typename T> void every_name()
    {
        auto const i = choose(std::uint32_t(names().size())); auto const& [n, e] = names()[i]; auto const p = parse(n); mc::heavy();
        for (int k = 0; k <= grid(); ++k) { T const t = T(k) / grid(); R const x = sizeof(T) == 4 ? R(float(t)) : R(double(t)); T const r = ease(e, t); mc::op();
            // next to a jump the rounding of the argument decides
            if (p.kind == "Step") { R const y = p.reversed ? 1 - x : x; if (fabsl(fmodl(4 * y, 1.0L) - .5L) > .49999L && p.reversed && (k * 4) % grid() != 0) continue; }
            R const expected = eased(p, x); R const slack = p.kind == "Circ" ? 600 : 16; MC_CHECK(fabsl(R(r) - expected) <= R(tolerance<T>()) * slack * (1 + fabsl(expected)), "ease", n, " at ", x, ": ", r, " expected ", double(expected)); }
        if (p.kind != "Zero" && p.kind != "One" && p.kind != "Step") for (int end = 0; end < 2; ++end) { bool const one = (end == 1) != (p.reversed != p.inverted); MC_CHECK(std::abs(ease(e, T(end)) - T(one)) < T(.002), "ends", n, " at ", end, ": ", ease(e, T(end))); }
        mc::validated();
    }
}
MC_SCENARIO_S("double", 1) { every_name<double>(); }
MC_SCENARIO_S("float", 1) { every_name<float>(); }
MC_SCENARIO("names")
{   // the names are all different, denote different easings and are written as they are read
    auto const i = choose(std::uint32_t(names().size())); auto const& [n, e] = names()[i]; MC_CHECK(names().size() == 204, "names", names().size());
    auto const p = parse(n); MC_CHECK(in(p.kind, .3L) >= -.5L || p.kind == "Zero" || p.kind == "One", "names", n); for (std::size_t j = 0; j < names().size(); ++j) if (j != i) MC_CHECK(names()[j].second != e && names()[j].first != n, "names", n, " and ", names()[j].first, " are the same");
    MC_CHECK(string_to_enum<easing>(n) == e && enum_to_string(e) == string{ n } && *try_string_to_enum<easing>(n) == e, "names", n); MC_CHECK(!try_string_to_enum<easing>(n + "x"), "names", n);
    MC_CHECK((e | easing_class::Reversed | easing_class::Inverted) == by_name("ReversedInverted" + p.direction + p.kind), "names", n); MC_CHECK((e ^ easing_class::Reversed) == by_name(S(p.reversed ? "" : "Reversed") + (p.inverted ? "Inverted" : "") + p.direction + p.kind) && (e ^ easing_class::Inverted) == by_name(S(p.reversed ? "Reversed" : "") + (p.inverted ? "" : "Inverted") + p.direction + p.kind) && (e & ~(easing_class::Reversed | easing_class::Inverted)) == by_name(p.direction + p.kind), "names", n); mc::op(); mc::validated();
}
MC_SCENARIO("standard")
{
    auto const& s = standard_easings(); MC_CHECK(s.size() == plain().size(), "standard", s.size()); auto const i = choose(std::uint32_t(s.size())); MC_CHECK(s[i] == by_name(plain()[i]) && standard_easing_index(s[i]) == i, "standard", i); MC_CHECK(standard_easing_index(s[i] | easing_class::Inverted) == standard_easing_index(easing::Zero), "standard", i);
    for (int k = 0; k <= grid(); ++k) { double const t = double(k) / grid(); MC_CHECK(standard_ease(s[i], t) == ease(s[i], t), "standard", plain()[i], " at ", t); mc::op(); } bool threw = false; try { standard_ease(s[i] | easing_class::Reversed, .5); } catch (std::logic_error const&) { threw = true; } MC_CHECK(threw, "unknown", i); mc::validated();
}
MC_SCENARIO_S("scaled", 1) { auto const& [n, e] = names()[choose(std::uint32_t(names().size()))]; auto const p = parse(n); mc::heavy(); for (double d : { 1., 2., 64. }) for (double b : { 0., -3. }) for (double c : { 1., 5. }) for (int k = 0; k <= 64; ++k) { double const t = k / 64.; MC_CHECK(near(ease(e, t * d, b, c, d), R(ease(e, t)) * R(c) + R(b)), "scaled", n, " ", t); mc::op(); } mc::validated(); }
// one easing after the other: each takes its part of the time and of the way
MC_SCENARIO_S("two", 1) { auto const& [n, e] = names()[choose(std::uint32_t(names().size()))]; auto const p = parse(n); mc::heavy(); for (auto const& [m, f] : names()) { auto const q = parse(m); for (int k = 0; k <= 16; ++k) { double const t = k / 16.; R const x = t < .5 ? eased(p, 2 * R(t)) / 2 : (1 + eased(q, 2 * R(t) - 1)) / 2; MC_CHECK(near(ease(e, f, t), x), "two", n, " ", m, " at ", t, ": ", ease(e, f, t), " expected ", double(x)); mc::op(); } } mc::validated(); }
MC_SCENARIO("classes")
{
    static std::pair<S, easing_class> const cs[] = { { "Quad", easing_class::Quad }, { "Cubic", easing_class::Cubic }, { "Quart", easing_class::Quart }, { "Quint", easing_class::Quint }, { "Sine", easing_class::Sine }, { "Expo", easing_class::Expo }, { "Circ", easing_class::Circ }, { "Elastic", easing_class::Elastic }, { "Back", easing_class::Back }, { "Bounce", easing_class::Bounce } };
    auto const& [n, e] = cs[choose(10)]; auto const& [m, f] = cs[choose(10)]; for (int k = 0; k <= 32; ++k) { double const t = k / 32.; R const x = t < .5 ? in(n, 2 * R(t)) / 2 : (1 + out(m, 2 * R(t) - 1)) / 2; MC_CHECK(near(ease(e, f, t), x), "classes", n, " ", m, " at ", t); mc::op(); } mc::validated();
}
namespace { std::vector<S> const some{ "Linear", "InQuad", "OutInCubic", "InvertedOutBounce", "ReversedInSine", "One", "ReversedOutInQuad" }; }
MC_SCENARIO("four") { named p[4]; easing e[4]; for (int i = 0; i < 4; ++i) { auto const& n = some[choose(std::uint32_t(some.size()))]; p[i] = parse(n); e[i] = by_name(n); } for (int k = 0; k <= 32; ++k) { double const t = k / 32.; int const q = std::min(3, k / 8); R const x = (q + eased(p[q], 4 * R(t) - q)) / 4; MC_CHECK(near(ease(e[0], e[1], e[2], e[3], t), x), "four", p[0].kind, " ", p[1].kind, " ", p[2].kind, " ", p[3].kind, " at ", t, ": ", ease(e[0], e[1], e[2], e[3], t)); mc::op(); } mc::validated(); }
namespace
{
    // partitions whose weights are 1 on average: full, each runs its whole range in its time; normalised, each moves the value on by its share
    R partition(std::vector<std::pair<named, R>> const& s, R t, bool full)
    {
        R total = 0, from = 0, pos = s.empty() ? 0 : eased(s[0].first, 0); for (auto& x : s) total += x.second; std::size_t last = s.size() - 1;
        for (std::size_t i = 0; i < s.size(); ++i) { R const w = s[i].second; if (w == 0) continue; if (t * total < from + w || i == last) { R const u = std::min<R>(1, (t * total - from) / w); if (full) return eased(s[i].first, u); return pos + (eased(s[i].first, u) - eased(s[i].first, 0)) * w / total; } pos += (eased(s[i].first, 1) - eased(s[i].first, 0)) * w / total; from += w; }
        return 0;
    }
}
MC_SCENARIO_S("partitions", 2)
{
    static std::vector<std::vector<double>> const weights{ { 1 }, { 1, 1 }, { .5, 1.5 }, { 1.75, .25 }, { 0, 2 }, { 1, 1, 1 }, { .5, 1, 1.5 }, { 1, 0, 2 }, { 2, .5, .5 } };
    auto const& w = weights[choose(std::uint32_t(weights.size()))]; std::vector<std::pair<named, R>> m; std::vector<ease_segment<double>> v; for (auto x : w) { auto const& n = some[choose(std::uint32_t(some.size()))]; m.emplace_back(parse(n), x); v.push_back({ by_name(n), x }); }
    for (int full = 0; full < 2; ++full) for (int k = 0; k <= 48; ++k)
    {
        double const t = k / 48.; bool edge = false; double c = 0; for (auto x : w) { c += x; if (std::abs(t * double(w.size()) - c) < 1e-9 && t < 1) edge = true; } if (edge && full && (k * w.size() * 4) % (48 * 1) != 0) continue; if (edge && full && w.size() == 3) continue;
        auto const mode = full ? ease_partition::Full : ease_partition::Normalized; double const r = partitioned_ease(std::span<ease_segment<double> const>{ v.data(), v.size() }, t, mode); R const x = partition(m, t, full); MC_CHECK(fabsl(R(r) - x) < 1e-11L, "partition", "at ", t, " full ", full, ": ", r, " expected ", double(x)); mc::op();
        if (v.size() == 2) MC_CHECK(partitioned_ease(v[0].easing, v[1].easing, t, v[0].weight, v[1].weight, mode) == r && partitioned_ease({ v[0], v[1] }, t, mode) == r, "partition of two", t);
    }
    mc::validated();
}
MC_SCENARIO("there and back")
{   // a single easing in two halves: there and, turned round, back again
    auto const& [n, e] = names()[choose(std::uint32_t(names().size()))]; auto p = parse(n), q = p; if (p.reversed) q.reversed = false; else q.inverted = !q.inverted; if (p.kind == "Step") { mc::validated(); return; }
    for (int k = 0; k <= 32; ++k) { double const t = k / 32.; R const x = t < .5 ? eased(p, 2 * R(t)) : eased(q, 2 * R(t) - 1); MC_CHECK(fabsl(partitioned_ease(e, t) - x) < 1e-11L && fabsl(partitioned_ease(e, t, 1., 1.) - x) < 1e-11L, "there and back", n, " at ", t, ": ", partitioned_ease(e, t), " expected ", double(x)); mc::op(); }
    std::vector<std::pair<named, R>> m{ { p, .5L }, { q, 1.5L } }; for (int k = 0; k <= 32; ++k) { double const t = k / 32.; MC_CHECK(fabsl(partitioned_ease(e, t, .5, 1.5) - partition(m, t, true)) < 1e-11L, "there and back", n, " weighted at ", t); } mc::validated();
}
MC_SCENARIO("four parts") { named p[4]; easing e[4]; std::vector<std::pair<named, R>> m; static double const ws[][4] = { { 1, 1, 1, 1 }, { .5, 1.5, .25, 1.75 } }; auto const& w = ws[choose(2)]; for (int i = 0; i < 4; ++i) { auto const& n = some[choose(4)]; p[i] = parse(n); e[i] = by_name(n); m.emplace_back(p[i], w[i]); } for (int full = 0; full < 2; ++full) for (int k = 0; k <= 32; ++k) { double const t = k / 32.; double const r = partitioned_ease(e[0], e[1], e[2], e[3], t, w[0], w[1], w[2], w[3], full ? ease_partition::Full : ease_partition::Normalized); MC_CHECK(fabsl(r - partition(m, t, full)) < 1e-11L, "four parts", t, ": ", r); mc::op(); } mc::validated(); }
MC_SCENARIO("no parts") { MC_CHECK(partitioned_ease(std::span<ease_segment<double> const>{}, choose(3) / 2.) == 0, "no parts", ""); ease_segment<double> z[2] = { { easing::Linear, 0 }, { easing::One, 0 } }; MC_CHECK(partitioned_ease(std::span<ease_segment<double> const>{ z, 2 }, .5) == 0, "no parts", ""); mc::validated(); }
