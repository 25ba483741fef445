// Vectors, matrices, boxes and counters against their textbook definitions, over operands for which floating point is
// exact. Compiled three times: scalar, with AVX and SSE2, and with AVX chosen at run time (G01_FORMS).
#pragma once
#include "enumerate.hpp"
#include <cstring>
#include <cmath>
#include <sstream>
#include <set>
#include <neolib/core/numerical.hpp>
#include <neolib/core/bresenham_counter.hpp>
#ifndef G01_FORMS
#define G01_FORMS 1
#endif
#define G01_EACH_FORM [[maybe_unused]] int const g01Form = G01_FORMS == 1 ? 0 : int(mc::choose(2)); g01_form(g01Form)
using mc::choose;
namespace nm = neolib::math;
namespace
{
    inline void g01_form([[maybe_unused]] int f)
    {
#if defined(USE_AVX_DYNAMIC)
        neolib::use_simd() = f != 0;
#endif
    }
    typedef std::vector<double> nums;
    template <typename V> nums of(V const& v) { nums r; for (std::uint32_t i = 0; i < V::Size; ++i) r.push_back(double(v[i])); return r; }
    template <typename V> V to(nums const& n) { V v; for (std::uint32_t i = 0; i < V::Size; ++i) v[i] = typename V::value_type(n[i]); return v; }
    std::string show(nums const& n) { std::ostringstream o; for (double d : n) o << d << ' '; return o.str(); }
    template <typename F> nums map(nums const& a, F f) { nums r; for (double x : a) r.push_back(f(x)); return r; }
    template <typename F> nums zip(nums const& a, nums const& b, F f) { nums r; for (std::size_t i = 0; i < a.size(); ++i) r.push_back(f(a[i], b[i])); return r; }
    double sum(nums const& a) { double r = 0; for (double x : a) r += x; return r; }
    // all words of length n over alphabet
    std::vector<nums> words_of(nums const& alphabet, std::size_t n) { std::vector<nums> r{ nums{} }; while (n--) { std::vector<nums> s; for (auto const& w : r) for (double x : alphabet) { s.push_back(w); s.back().push_back(x); } r.swap(s); } return r; }
    void same(nums const& got, nums const& want, const char* what, nums const& a, nums const& b) { mc::op(); if (got != want) mc::fail(what, show(a) + "and " + show(b) + "-> " + show(got) + "expected " + show(want)); }
    void truth(bool ok, const char* what, nums const& a, nums const& b) { mc::op(); if (!ok) mc::fail(what, show(a) + "and " + show(b)); }
    template <typename C> void sliced(C const& all, std::uint32_t slices, auto f) { auto const s = choose(slices); mc::heavy(); for (std::size_t i = s; i < all.size(); i += slices) { f(all[i]); mc::validated(); } }
}
//------------------------------------------------------------------------------------------------- vectors
template <typename T, std::uint32_t D, typename Kind>
static void vector_pairs(nums const& alphabet)
{
    using V = nm::basic_vector<T, D, Kind>; static constexpr bool real = std::is_floating_point_v<T>; auto const all = words_of(alphabet, D);
    G01_EACH_FORM;
    sliced(all, 16, [&](nums const& a)
    {
        V const v = to<V>(a); nums const none;
        same(of(-v), map(a, [](double x) { return -x; }), "negation", a, none); same(of(V{ v }), a, "copy", a, none); { V w; w = v; same(of(w), a, "assignment", a, none); }
        same(nums(v.begin(), v.end()), a, "iteration", a, none); truth(v.size() == D && V{} == to<V>(nums(D, 0.0)), "default", a, none);
        same({ double(v.min()) }, { *std::min_element(a.begin(), a.end()) }, "min()", a, none);
        { V w = v; w += V{}; truth(w == v && !(w != v), "equality", a, none); }
        for (double s : alphabet)
        {
            T const t = T(s); V w = v;
            same(of(v + t), map(a, [&](double x) { return x + s; }), "v + s", a, { s }); same(of(t + v), map(a, [&](double x) { return x + s; }), "s + v", a, { s });
            same(of(v - t), map(a, [&](double x) { return x - s; }), "v - s", a, { s }); same(of(t - v), map(a, [&](double x) { return s - x; }), "s - v", a, { s });
            same(of(v * t), map(a, [&](double x) { return x * s; }), "v * s", a, { s }); same(of(t * v), map(a, [&](double x) { return x * s; }), "s * v", a, { s });
            w += t; same(of(w), map(a, [&](double x) { return x + s; }), "v += s", a, { s }); w = v; w -= t; same(of(w), map(a, [&](double x) { return x - s; }), "v -= s", a, { s }); w = v; w *= t; same(of(w), map(a, [&](double x) { return x * s; }), "v *= s", a, { s });
            if (s != 0) { auto q = [&](double x) { return double(T(T(x) / t)); }; same(of(v / t), map(a, q), "v / s", a, { s }); w = v; w /= t; same(of(w), map(a, q), "v /= s", a, { s }); same(of(v % t), map(a, [&](double x) { return double(T(std::fmod(x, s))); }), "v % s", a, { s }); }
            if (std::find(a.begin(), a.end(), 0.0) == a.end()) same(of(t / v), map(a, [&](double x) { return double(T(t / T(x))); }), "s / v", a, { s });
        }
        if constexpr (real)
        {
            for (double h : { 0.0, 0.25, 0.5, 0.75 }) { V const w = v + T(h); auto const b = of(w); same(of(w.ceil()), map(b, [](double x) { return std::ceil(x); }), "ceil", b, none); same(of(w.floor()), map(b, [](double x) { return std::floor(x); }), "floor", b, none); same(of(w.round()), map(b, [](double x) { return std::round(x); }), "round", b, none); }
            double const m2 = sum(map(a, [](double x) { return x * x; })); truth(std::abs(v.magnitude() - std::sqrt(m2)) < 1e-5, "magnitude", a, none);
            if (m2 > 0) { auto const n = of(v.normalized()); for (std::uint32_t i = 0; i < D; ++i) truth(std::abs(n[i] - a[i] / std::sqrt(m2)) < 1e-5, "normalized", a, n); }
        }
        { std::ostringstream o; o << v; std::string e = "["; for (std::uint32_t i = 0; i < D; ++i) { std::ostringstream n; n << T(a[i]); e += (i ? ", " : "") + n.str(); } truth(o.str() == e + "]", "written text", a, none); std::istringstream in{ o.str() }; V w; in >> w; same(of(w), a, "read back", a, none); }
        { std::initializer_list<T> three{ T(1), T(2), T(3) }; nums want(D, 0.0); bool threw = false; V w = v; try { V u(three); for (std::uint32_t i = 0; i < D; ++i) want[i] = i < 3 ? i + 1 : 0; same(of(u), want, "initializer list", a, none); } catch (std::out_of_range const&) { threw = true; } truth(threw == (D < 3), "initializer list too big", a, none);
          threw = false; try { w = three; same(of(w), want, "assigned initializer list", a, none); } catch (std::out_of_range const&) { threw = true; same(of(w), a, "refused assignment", a, none); } truth(threw == (D < 3), "assigned initializer list too big", a, none); }
        same(of(v.template as<double>()), a, "as<double>", a, none); same(of(v.template as<std::int32_t>()), a, "as<int32>", a, none);
        if constexpr (D < 4) { nm::basic_vector<T, 4, Kind> const w{ v }; nums e = a; e.resize(4, 0.0); same(of(w), e, "widened", a, none); }
        if constexpr (D == 3 || D == 4) { nm::basic_vector<T, 2, Kind> const w{ v }; same(of(w), { a[0], a[1] }, "narrowed", a, none); }
        for (auto const& b : all)
        {
            V const u = to<V>(b); V w = v; auto const add = zip(a, b, std::plus<>{}), sub = zip(a, b, std::minus<>{}), mul = zip(a, b, std::multiplies<>{});
            same(of(v + u), add, "v + u", a, b); w += u; same(of(w), add, "v += u", a, b); w = v; same(of(v - u), sub, "v - u", a, b); w -= u; same(of(w), sub, "v -= u", a, b); w = v; w *= u; same(of(w), mul, "v *= u", a, b);
            same(of(v.scale(u)), mul, "scale", a, b); same(of(v.hadamard_product(u)), mul, "hadamard_product", a, b); same({ double(v.dot(u)) }, { sum(mul) }, "dot", a, b);
            same(of(v.min(u)), zip(a, b, [](double x, double y) { return std::min(x, y); }), "min", a, b); same(of(v.max(u)), zip(a, b, [](double x, double y) { return std::max(x, y); }), "max", a, b);
            truth((v == u) == (a == b) && (v != u) == (a != b), "equality", a, b); truth((v < u) == (a < b), "order", a, b);
            if (std::find(b.begin(), b.end(), 0.0) == b.end()) { w = v; w /= u; same(of(w), zip(a, b, [](double x, double y) { return double(T(T(x) / T(y))); }), "v /= u", a, b); }
            { V x = v, y = u; using std::swap; swap(x, y); truth(of(x) == b && of(y) == a, "swap", a, b); }
            std::array<V, 2> const vs{ v, u }; auto both = [](std::array<V, 2> const& p) { auto r = of(p[0]); auto s = of(p[1]); r.insert(r.end(), s.begin(), s.end()); return r; }; auto cat = [](nums r, nums const& s) { r.insert(r.end(), s.begin(), s.end()); return r; };
            auto const twice = map(a, [](double x) { return 2 * x; }), nil = map(a, [](double) { return 0.0; });
            same(both(vs + v), cat(twice, add), "array + v", a, b); same(both(v + vs), cat(twice, add), "v + array", a, b); same(both(vs - v), cat(nil, zip(b, a, std::minus<>{})), "array - v", a, b); same(both(v - vs), cat(nil, sub), "v - array", a, b);
            { auto p = vs; p += v; same(both(p), cat(twice, add), "array += v", a, b); p = vs; p -= v; same(both(p), cat(nil, zip(b, a, std::minus<>{})), "array -= v", a, b); }
            if constexpr (real)
            {
                truth(std::abs(v.distance(u) - std::sqrt(sum(map(sub, [](double x) { return x * x; })))) < 1e-5, "distance", a, b);
                for (double t : { 0.0, 0.25, 0.5, 1.0, 2.0 }) same(of(nm::lerp(v, u, T(t))), zip(a, b, [&](double x, double y) { return x + (y - x) * t; }), "lerp", a, b);
                if constexpr (D == 3) same(of(nm::midpoint(v, u)), zip(a, b, [](double x, double y) { return (x + y) / 2; }), "midpoint", a, b);
            }
            if constexpr (D == 3) same(of(v.cross(u)), { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }, "cross", a, b);
            if constexpr (std::is_same_v<Kind, nm::row_vector> && real)
            {
                nm::basic_vector<T, D> const c = to<nm::basic_vector<T, D>>(b); same({ double(v * c) }, { sum(mul) }, "row * column", a, b);
                auto const m = c * v; for (std::uint32_t col = 0; col < D; ++col) for (std::uint32_t row = 0; row < D; ++row) truth(m[col][row] == b[row] * a[col], "column * row", b, a);
            }
        }
    });
}
MC_SCENARIO("vectors/double 1") { vector_pairs<double, 1, nm::column_vector>({ -2, -1, 0, 1, 3, 5 }); }
MC_SCENARIO("vectors/double 2") { vector_pairs<double, 2, nm::column_vector>({ -2, -1, 0, 1, 3 }); }
MC_SCENARIO("vectors/double 3") { vector_pairs<double, 3, nm::column_vector>(mc::tier(0, 1) ? nums{ -4, -2, -1, 0, 1, 2, 3 } : nums{ -2, -1, 0, 1, 3 }); }
MC_SCENARIO("vectors/double 4") { vector_pairs<double, 4, nm::column_vector>(mc::tier(0, 1) ? nums{ -1, 0, 1, 2 } : nums{ -1, 0, 2 }); }
MC_SCENARIO("vectors/row 3") { vector_pairs<double, 3, nm::row_vector>({ -1, 0, 2 }); }
MC_SCENARIO("vectors/row 4") { vector_pairs<double, 4, nm::row_vector>({ -1, 0, 2 }); }
MC_SCENARIO("vectors/row 2") { vector_pairs<double, 2, nm::row_vector>({ -2, -1, 0, 1, 3 }); }
MC_SCENARIO("vectors/float 3") { vector_pairs<float, 3, nm::column_vector>({ -1, 0, 2 }); }
MC_SCENARIO("vectors/float row 4") { vector_pairs<float, 4, nm::row_vector>({ -1, 0, 2 }); }
MC_SCENARIO("vectors/int 2") { vector_pairs<std::int32_t, 2, nm::column_vector>({ -2, -1, 0, 1, 3 }); }
MC_SCENARIO("vectors/int 3") { vector_pairs<std::int32_t, 3, nm::column_vector>({ -1, 0, 2 }); }
//------------------------------------------------------------------------------------------------- swizzles
template <typename V, typename S, int... I> static void swizzled(nums const& a, S V::* member, const char* name)
{
    constexpr std::size_t n = sizeof...(I); V const v = to<V>(a); std::array<int, n> const ix{ I... }; nums want; for (int i : ix) want.push_back(a[i]);
    auto const got = ~(v.*member); same(of(got), want, name, a, {}); using W = std::decay_t<decltype(got)>;
    { W const w = v.*member; same(of(w), want, name, a, {}); }
    { V w = v; w.*member = typename V::value_type(7); auto e = a; for (int i : ix) e[i] = 7; same(of(w), e, name, a, { 7 }); }
    same(of((v.*member) + (v.*member)), map(want, [](double x) { return 2 * x; }), name, a, {}); same(of((v.*member) - (v.*member)), map(want, [](double) { return 0.0; }), name, a, {}); truth((v.*member) == (v.*member), name, a, {});
    if (std::set<int>(ix.begin(), ix.end()).size() != n) return;
    nums from; for (std::size_t i = 0; i < n; ++i) from.push_back(10 + i); { V w = v; w.*member = to<W>(from); auto e = a; for (std::size_t i = 0; i < n; ++i) e[ix[i]] = from[i]; same(of(w), e, name, a, from); }
    { V const o = to<V>(map(a, [](double x) { return x + 20; })); V w = v; w.*member = o.*member; auto e = a; for (int i : ix) e[i] = a[i] + 20; same(of(w), e, "swizzle from the same swizzle", a, {}); }
    if constexpr (n == V::Size) { V w = v; w.*member = w; auto e = a; for (std::size_t i = 0; i < n; ++i) e[ix[i]] = a[i]; same(of(w), e, "swizzle from its own vector", a, {}); }
}
#define S2(N, A, B) swizzled<V, decltype(V::N), A, B>(a, &V::N, #N);
#define S3(N, A, B, C) swizzled<V, decltype(V::N), A, B, C>(a, &V::N, #N);
template <typename V> static void swizzles_of_two(nums const& a) { S2(xx,0,0) S2(xy,0,1) S2(yx,1,0) S2(yy,1,1) if constexpr (V::Size == 2) { S3(xxx,0,0,0) S3(xxy,0,0,1) S3(xyx,0,1,0) S3(xyy,0,1,1) S3(yxx,1,0,0) S3(yxy,1,0,1) S3(yyx,1,1,0) S3(yyy,1,1,1) } }
template <typename V> static void swizzles_of_three(nums const& a)
{
    swizzles_of_two<V>(a); S2(xz,0,2) S2(yz,1,2) S2(zx,2,0) S2(zy,2,1) S2(zz,2,2) S3(xxx,0,0,0) S3(xxy,0,0,1) S3(xxz,0,0,2) S3(xyx,0,1,0) S3(xyy,0,1,1) S3(xyz,0,1,2) S3(yxx,1,0,0) S3(yxy,1,0,1) S3(yxz,1,0,2) S3(yyx,1,1,0) S3(yyy,1,1,1) S3(yyz,1,1,2)
    S3(yzx,1,2,0) S3(yzy,1,2,1) S3(yzz,1,2,2) S3(zxx,2,0,0) S3(zxy,2,0,1) S3(zxz,2,0,2) S3(zyx,2,1,0) S3(zyy,2,1,1) S3(zyz,2,1,2) S3(zzx,2,2,0) S3(zzy,2,2,1) S3(zzz,2,2,2)
    V const v = to<V>(a); same({ v.x, v.y, v.z }, { a[0], a[1], a[2] }, "x y z", a, {});
}
MC_SCENARIO("swizzles/2") { sliced(words_of({ -1, 0, 2, 3 }, 2), 2, [](nums const& a) { swizzles_of_two<nm::vec2>(a); }); }
MC_SCENARIO("swizzles/3") { sliced(words_of({ -1, 0, 2, 3 }, 3), 4, [](nums const& a) { swizzles_of_three<nm::vec3>(a); }); }
MC_SCENARIO("swizzles/4") { sliced(words_of({ -1, 0, 2 }, 4), 4, [](nums const& a) { nm::vec4 const v = to<nm::vec4>(a); same(of(~v.xyz), { a[0], a[1], a[2] }, "xyz", a, {}); same(of(~v.zy), { a[2], a[1] }, "zy", a, {}); nm::vec4 w = v; w.zx = nm::vec2{ 8.0, 9.0 }; same(of(w), { 9, a[1], 8, a[3] }, "zx", a, {}); }); }
//------------------------------------------------------------------------------------------------- matrices
namespace
{
    struct grid { std::uint32_t rows, columns; nums e; double at(std::uint32_t r, std::uint32_t c) const { return e[c * rows + r]; } double& at(std::uint32_t r, std::uint32_t c) { return e[c * rows + r]; } };
    template <typename M, std::uint32_t R, std::uint32_t C> grid grid_of(M const& m) { grid g{ R, C, {} }; for (std::uint32_t c = 0; c < C; ++c) for (std::uint32_t r = 0; r < R; ++r) g.e.push_back(double(m[c][r])); return g; }
    template <typename T, std::uint32_t R, std::uint32_t C> grid of(nm::basic_matrix<T, R, C> const& m) { return grid_of<nm::basic_matrix<T, R, C>, R, C>(m); }
    template <typename M, std::uint32_t R, std::uint32_t C> M matrix(nums const& e) { M m; for (std::uint32_t c = 0; c < C; ++c) for (std::uint32_t r = 0; r < R; ++r) m[c][r] = e[c * R + r]; return m; }
    grid times(grid const& a, grid const& b) { grid r{ a.rows, b.columns, nums(a.rows * b.columns, 0.0) }; for (std::uint32_t i = 0; i < a.rows; ++i) for (std::uint32_t j = 0; j < b.columns; ++j) for (std::uint32_t k = 0; k < a.columns; ++k) r.at(i, j) += a.at(i, k) * b.at(k, j); return r; }
    // every matrix with at most `most` entries other than base's, these taken from values
    std::vector<nums> sparse(nums const& base, nums const& values, int most) { std::vector<nums> r{ base }; std::size_t from = 0; std::set<nums> seen{ base }; while (most--) { std::size_t const n = r.size(); for (std::size_t i = from; i < n; ++i) for (std::size_t k = 0; k < base.size(); ++k) for (double x : values) { auto m = r[i]; m[k] = x; if (seen.insert(m).second) r.push_back(m); } from = n; } return r; }
    nums unit(std::uint32_t n) { nums r(n * n, 0.0); for (std::uint32_t i = 0; i < n; ++i) r[i * n + i] = 1; return r; }
    std::vector<nums> joined(std::vector<nums> a, std::vector<nums> const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
}
template <typename T, std::uint32_t R, std::uint32_t C> static void one_matrix(nums const& a)
{
    using M = nm::basic_matrix<T, R, C>; M const m = matrix<M, R, C>(a); nums const none; same(of(m).e, a, "elements", a, none); truth(m.size() == std::make_pair(R, C), "size", a, none); truth(nums(m.data(), m.data() + R * C) == a, "data", a, none);
    same(of(M{ m }).e, a, "copy", a, none); { M n; n = m; same(of(n).e, a, "assignment", a, none); } same(of(-m).e, map(a, [](double x) { return -x; }), "-m", a, none); same(of(m.template as<float>()).e, a, "as<float>", a, none);
    auto const t = m.transposed(); for (std::uint32_t c = 0; c < C; ++c) for (std::uint32_t r = 0; r < R; ++r) truth(t[r][c] == m[c][r], "transposed", a, none); truth(t.transposed() == m, "transposed twice", a, none);
    for (double s : { -2.0, 0.0, 1.0, 4.0 })
    {
        T const k = T(s); same(of(m + k).e, map(a, [&](double x) { return x + s; }), "m + s", a, { s }); same(of(k + m).e, map(a, [&](double x) { return x + s; }), "s + m", a, { s }); same(of(m - k).e, map(a, [&](double x) { return x - s; }), "m - s", a, { s });
        same(of(k - m).e, map(a, [&](double x) { return s - x; }), "s - m", a, { s }); same(of(m * k).e, map(a, [&](double x) { return x * s; }), "m * s", a, { s }); same(of(k * m).e, map(a, [&](double x) { return x * s; }), "s * m", a, { s }); if (s != 0) same(of(m / k).e, map(a, [&](double x) { return x / s; }), "m / s", a, { s });
    }
    for (double e : { 1.0, 0.5 }) for (double h : { 0.0, 0.25, -0.25 }) { auto const b = map(a, [&](double x) { return x + h; }); same(of(matrix<M, R, C>(b).round_to(T(e))).e, map(b, [&](double x) { return std::floor(x / e + 0.5) * e; }), "round_to", b, { e }); }
    { std::ostringstream o; o << m; std::ostringstream w; w << '['; for (std::uint32_t r = 0; r < R; ++r) { w << (r ? ", [" : "["); for (std::uint32_t c = 0; c < C; ++c) w << (c ? ", " : "") << a[c * R + r]; w << ']'; } w << ']'; truth(o.str() == w.str(), "written text", a, none); }
    if constexpr (R == C) { truth((m == M::identity()) == (a == unit(R)) && m.is_identity() == (a == unit(R)), "identity", a, none); auto const w = nm::without_translation(m); for (std::uint32_t c = 0; c < C; ++c) for (std::uint32_t r = 0; r < R; ++r) truth(w[c][r] == (c == C - 1 && r < R - 1 ? 0.0 : m[c][r]), "without_translation", a, none); }
    nm::matrix_array<double, R, C> p; for (std::uint32_t c = 0; c < C; ++c) for (std::uint32_t r = 0; r < R; ++r) p[c][r] = a[c * R + r]; auto const pt = p.transposed(); auto const pa = p.apply([](double const& x) { return T(x * 2); }); for (std::uint32_t c = 0; c < C; ++c) for (std::uint32_t r = 0; r < R; ++r) truth(pt[r][c] == p[c][r] && pa[c][r] == 2 * p[c][r], "matrix_array", a, none); { auto q = p; truth(q == p && !(q != p), "matrix_array copy", a, none); nm::matrix_array<double, R, C> z; swap(q, z); truth(z == p, "matrix_array swap", a, none); }
}
template <typename T, std::uint32_t D> static void square(std::vector<nums> const& all, std::vector<nums> const& others, nums const& letters)
{
    using M = nm::basic_matrix<T, D, D>; using CV = nm::basic_vector<T, D>; using RV = nm::basic_vector<T, D, nm::row_vector>; auto const vectors = words_of(letters, D);
    G01_EACH_FORM;
    sliced(all, 32, [&](nums const& a)
    {
        one_matrix<T, D, D>(a); M const m = matrix<M, D, D>(a); grid const ga{ D, D, a };
        for (auto const& b : others)
        {
            M const n = matrix<M, D, D>(b); grid const gb{ D, D, b }; auto const p = times(ga, gb); same(of(m * n).e, p.e, "m * n", a, b); { M q = m; q *= n; same(of(q).e, p.e, "m *= n", a, b); } same(of(m + n).e, zip(a, b, std::plus<>{}), "m + n", a, b); same(of(m - n).e, zip(a, b, std::minus<>{}), "m - n", a, b);
            truth((m == n) == (a == b) && (m != n) == (a != b), "equality", a, b); { M x = m, y = n; using std::swap; swap(x, y); truth(x == n && y == m, "swap", a, b); }
        }
        std::array<CV, 2> cs; std::array<RV, 2> rs;
        for (auto const& v : vectors)
        {
            grid const col{ D, 1, v }, row{ 1, D, v }; auto const c = times(ga, col).e, r = times(row, ga).e; same(of(m * to<CV>(v)), c, "m * column", a, v); same(of(to<RV>(v) * m), r, "row * m", a, v);
            cs[1] = cs[0]; rs[1] = rs[0]; cs[0] = to<CV>(v); rs[0] = to<RV>(v); auto const mc2 = m * cs; auto const rm2 = rs * m; truth(of(mc2[0]) == c && mc2[1] == m * cs[1], "m * columns", a, v); truth(of(rm2[0]) == r && rm2[1] == rs[1] * m, "rows * m", a, v);
        }
        if constexpr (D == 4)
        {
            std::vector<nm::basic_vector<T, 3>> many; neolib::small_vector<nm::basic_vector<T, 3>, 2> few;
            for (auto const& v : words_of(letters, 3)) { auto h = v; h.push_back(1); auto const p = times(ga, grid{ 4, 1, h }).e; auto const x = to<nm::basic_vector<T, 3>>(v); same(of(m * x), { p[0], p[1], p[2] }, "m * point", a, v); if (many.size() < 3) { many.push_back(x); few.push_back(x); } }
            auto const l = m * many; auto const s = m * few; truth(l.size() == many.size() && s.size() == few.size(), "m * points", a, {}); for (std::size_t i = 0; i < many.size(); ++i) truth(l[i] == m * many[i] && s[i] == l[i], "m * points", a, of(many[i]));
        }
    });
}
template <std::uint32_t A, std::uint32_t B> static void oblong() { using M = nm::basic_matrix<double, A, B>; using N = nm::basic_matrix<double, B, A>; auto const all = sparse(nums(A * B, 0.0), { -1, 2 }, 2); sliced(all, 4, [&](nums const& a) { one_matrix<double, A, B>(a); for (auto const& b : all) same(of(matrix<M, A, B>(a) * matrix<N, B, A>(b)).e, times(grid{ A, B, a }, grid{ B, A, b }).e, "oblong product", a, b); }); }
static std::vector<nums> family(std::uint32_t n, int most) { return joined(sparse(nums(n * n, 0.0), { -1, 2 }, most), sparse(unit(n), { -1, 0, 2 }, most)); }
MC_SCENARIO("matrices/1") { square<double, 1>(words_of({ -2, -1, 0, 1, 3 }, 1), words_of({ -2, -1, 0, 1, 3 }, 1), { -2, -1, 0, 1, 3 }); }
MC_SCENARIO("matrices/2") { auto const all = words_of({ -1, 0, 1, 2 }, 4); square<double, 2>(all, all, { -1, 0, 1, 3 }); }
MC_SCENARIO("matrices/3") { square<double, 3>(family(3, 2), family(3, 2), { -1, 0, 2 }); }
MC_SCENARIO("matrices/3 all") { square<double, 3>(words_of(mc::tier(0, 1) ? nums{ -1, 0, 2 } : nums{ 0, 1 }, 9), { nums{ 1, 2, 3, 4, 5, 6, 7, 8, 9 } }, { -1, 0, 2 }); }
MC_SCENARIO("matrices/4") { square<double, 4>(family(4, 2), family(4, mc::tier(1, 2)), { -1, 0, 2 }); }
MC_SCENARIO("matrices/4 full") { square<double, 4>(sparse(nums{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 }, { 0 }, 1), joined(family(4, 1), sparse(nums{ 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53 }, { 0 }, 1)), { -1, 0, 2 }); }
MC_SCENARIO("matrices/4 float") { square<float, 4>(family(4, 1), family(4, 1), { -1, 0, 2 }); }
MC_SCENARIO("matrices/2x3") { oblong<2, 3>(); }
MC_SCENARIO("matrices/3x2") { oblong<3, 2>(); }
MC_SCENARIO("matrices/1x4") { oblong<1, 4>(); }
MC_SCENARIO("matrices/4x1") { oblong<4, 1>(); }
MC_SCENARIO("matrices/4x3") { oblong<4, 3>(); }
//------------------------------------------------------------------------------------------------- four at a time
MC_SCENARIO("simd/products")
{
    G01_EACH_FORM; sliced(words_of({ -2, 0, 3 }, 8), 16, [](nums const& a) {
        double const p[4] = { a[0] * a[1], a[2] * a[3], a[4] * a[5], a[6] * a[7] }; double a0 = 0, a1 = 0, a2 = 0, a3 = 0; float f0 = 0, f1 = 0, f2 = 0, f3 = 0; using namespace neolib;
        simd_mul_4d(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a0, a1, a2, a3); same({ a0, a1, a2, a3 }, { p[0], p[1], p[2], p[3] }, "simd_mul_4d", a, {});
        simd_mul_4d(float(a[0]), float(a[1]), float(a[2]), float(a[3]), float(a[4]), float(a[5]), float(a[6]), float(a[7]), f0, f1, f2, f3); same({ f0, f1, f2, f3 }, { p[0], p[1], p[2], p[3] }, "simd_mul_4d float", a, {});
        same({ simd_fma_4d(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]) }, { p[0] + p[1] + p[2] + p[3] }, "simd_fma_4d", a, {}); same({ simd_fma_4d(float(a[0]), float(a[1]), float(a[2]), float(a[3]), float(a[4]), float(a[5]), float(a[6]), float(a[7])) }, { p[0] + p[1] + p[2] + p[3] }, "simd_fma_4d float", a, {}); });
}
MC_SCENARIO("simd/random numbers") { G01_EACH_FORM; auto const seed = choose(16); mc::heavy(); neolib::simd_srand(std::uint32_t(seed * 0x11111111u)); for (std::uint32_t u : { 0u, 1u, 2u, 3u, 7u, 10u, 255u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu }) { std::set<std::uint32_t> seen; for (int k = 0; k < 64; ++k) { auto const x = neolib::simd_rand<std::uint32_t>(u); MC_CHECK(x <= u, "random number out of range", x, " of ", u); seen.insert(x); mc::op(); } MC_CHECK(seen.size() > (u == 0 ? 0u : 1u), "random numbers do not vary", u); } mc::validated(); }
//------------------------------------------------------------------------------------------------- transformations
namespace
{
    constexpr double PI = 3.14159265358979323846;
    grid rotation(int axis, int quarters) { static int const C[4] = { 1, 0, -1, 0 }, S[4] = { 0, 1, 0, -1 }; double const c = C[quarters & 3], s = S[quarters & 3]; grid g{ 3, 3, unit(3) }; int const i = (axis + 1) % 3, j = (axis + 2) % 3; g.at(i, i) = c; g.at(j, j) = c; g.at(j, i) = s; g.at(i, j) = -s; return g; }
    grid euler(int x, int y, int z) { return times(rotation(2, z), times(rotation(1, y), rotation(0, x))); }
    grid affine(grid const& r, nums const& t, nums const& s) { grid g{ 4, 4, unit(4) }; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) g.at(i, j) = r.at(i, j) * s[j]; g.at(i, 3) = t[i]; } return g; }
    void near(grid const& got, grid const& want, const char* what, nums const& a, nums const& b, double eps = 1e-9) { mc::op(); for (std::size_t i = 0; i < want.e.size(); ++i) if (!(std::abs(got.e[i] - want.e[i]) <= eps)) mc::fail(what, show(a) + "and " + show(b) + "-> " + show(got.e) + "expected " + show(want.e)); }
    double det(grid const& g) { return g.at(0,0) * (g.at(1,1) * g.at(2,2) - g.at(1,2) * g.at(2,1)) - g.at(0,1) * (g.at(1,0) * g.at(2,2) - g.at(1,2) * g.at(2,0)) + g.at(0,2) * (g.at(1,0) * g.at(2,1) - g.at(1,1) * g.at(2,0)); }
    template <typename M> void proper(M const& m, const char* what, nums const& a, nums const& b, double eps) { near(of(m * m.transposed()), grid{ 3, 3, unit(3) }, what, a, b, eps); truth(std::abs(det(of(m)) - 1) <= eps, what, a, b); }
}
MC_SCENARIO("transformations/right angles") { sliced(words_of({ -3, -2, -1, 0, 1, 2, 4 }, 3), 8, [](nums const& q) { nm::vec3 const e{ q[0] * PI / 2, q[1] * PI / 2, q[2] * PI / 2 }; auto const w = euler(int(q[0]), int(q[1]), int(q[2])); near(of(nm::rotation_matrix(e)), w, "rotation_matrix", q, {}); near(of(nm::affine_rotation_matrix(e)), affine(w, { 0, 0, 0 }, { 1, 1, 1 }), "affine_rotation_matrix", q, {});
    auto const u = nm::euler_to_quat(e); truth(std::abs(u.w * u.w + u.x * u.x + u.y * u.y + u.z * u.z - 1) < 1e-9, "unit quaternion", q, {}); }); }
MC_SCENARIO("transformations/angles") { sliced(words_of({ -2.0, -0.5, 0.0, 0.25, 1.0, 3.0 }, 3), 8, [](nums const& q) { nm::vec3 const e{ q[0], q[1], q[2] }; auto const m = nm::rotation_matrix(e); proper(m, "rotation_matrix", q, {}, 1e-9); using nm::vec3; near(of(m), of(nm::rotation_matrix(vec3{ 0.0, 0.0, q[2] }) * nm::rotation_matrix(vec3{ 0.0, q[1], 0.0 }) * nm::rotation_matrix(vec3{ q[0], 0.0, 0.0 })), "composition", q, {}); auto const f = nm::affine_rotation_matrix(e); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) truth(std::abs(f[c][r] - (c < 3 && r < 3 ? m[c][r] : c == r ? 1.0 : 0.0)) < 1e-12, "affine_rotation_matrix", q, {}); }); }
MC_SCENARIO("transformations/about an axis")
{
    sliced(words_of({ -1, 0, 1, 2 }, 3), 8, [](nums const& a) {
        if (a == nums{ 0, 0, 0 }) return; auto const n = to<nm::vec3>(a).normalized();
        for (int twelfth = -12; twelfth <= 12; ++twelfth)
        {
            double const t = twelfth * PI / 6, c = std::cos(t), s = std::sin(t); auto const m = nm::rotation_matrix(n, t); grid w{ 3, 3, nums(9, 0.0) }; double const x[3] = { n.x, n.y, n.z };
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double const cross = i == j ? 0 : ((i + 1) % 3 == j ? -x[3 - i - j] : x[3 - i - j]); w.at(i, j) = c * (i == j) + s * cross + (1 - c) * x[i] * x[j]; }
            near(of(m), w, "rotation about an axis", a, { double(twelfth) }, 2e-5); proper(m, "rotation about an axis", a, { double(twelfth) }, 2e-4);
        } });
}
MC_SCENARIO("transformations/one direction to another") { auto const all = words_of({ -1, 0, 1, 2 }, 3); sliced(all, 8, [&](nums const& a) { if (a == nums{ 0, 0, 0 }) return; for (auto const& b : all) { if (b == nums{ 0, 0, 0 }) continue; auto const v = to<nm::vec3>(a).normalized(), u = to<nm::vec3>(b).normalized(); auto const m = nm::rotation_matrix(to<nm::vec3>(a), to<nm::vec3>(b)); auto const g = m * v; proper(m, "rotation between directions", a, b, 2e-4); truth((g - u).magnitude() < 2e-4, "rotation between directions", a, b); } }); }
MC_SCENARIO("transformations/translation and scaling") { sliced(words_of({ -1, 0, 2 }, 3), 4, [](nums const& a) { nums const full{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 }; auto const v = to<nm::vec3>(a); { auto m = matrix<nm::mat44, 4, 4>(full); nm::apply_translation(m, v); auto w = full; for (int i = 0; i < 3; ++i) w[12 + i] += a[i]; same(of(m).e, w, "apply_translation", a, {}); } { auto m = matrix<nm::mat44, 4, 4>(full); nm::apply_scaling(m, v); auto w = full; for (int i = 0; i < 3; ++i) w[5 * i] *= a[i]; same(of(m).e, w, "apply_scaling", a, {}); }
    nm::vec2 const p{ a[0], a[1] }; { auto m = matrix<nm::mat44, 4, 4>(full); nm::apply_translation(m, p); auto w = full; for (int i = 0; i < 2; ++i) w[12 + i] += a[i]; same(of(m).e, w, "apply_translation 2d", a, {}); } { auto m = matrix<nm::mat44, 4, 4>(full); nm::apply_scaling(m, p); auto w = full; for (int i = 0; i < 2; ++i) w[5 * i] *= a[i]; same(of(m).e, w, "apply_scaling 2d", a, {}); } }); }
MC_SCENARIO("transformations/interpolation ends")
{
    using range = nm::vec3_range; auto const quarters = words_of({ -1, 0, 1, 2 }, 3);
    sliced(quarters, 16, [&](nums const& a) { for (auto const& b : quarters) {
        auto angles = [](nums const& q) { return nm::vec3{ q[0] * PI / 2, q[1] * PI / 2, q[2] * PI / 2 }; }; nums const t0{ 1, 2, 3 }, t1{ -4, 5, 9 }, s0{ 1, 2, 3 }, s1{ 3, 1, 5 }; range const t{ to<nm::vec3>(t0), to<nm::vec3>(t1) }, s{ to<nm::vec3>(s0), to<nm::vec3>(s1) }, r{ angles(a), angles(b) };
        auto q = [](nums const& n) { return euler(int(n[0]), int(n[1]), int(n[2])); }; auto const g = nm::affine_transformation_lerp_generator(t, s, r);
        near(of(nm::affine_transformation_lerp(t, s, r, 0.0)), affine(q(a), t0, s0), "interpolation at 0", a, b, 1e-7); near(of(nm::affine_transformation_lerp(t, s, r, 1.0)), affine(q(b), t1, s1), "interpolation at 1", a, b, 1e-7); near(of(g(0.0)), affine(q(a), t0, s0), "generator at 0", a, b, 1e-7); near(of(g(1.0)), affine(q(b), t1, s1), "generator at 1", a, b, 1e-7);
        for (int mask = 1; mask < 7; ++mask) { nums mix, tm, sm; nm::vec3 w; for (int i = 0; i < 3; ++i) { bool const end = mask >> i & 1; w[i] = end; mix.push_back(end ? b[i] : a[i]); tm.push_back(end ? t1[i] : t0[i]); sm.push_back(end ? s1[i] : s0[i]); } near(of(g(w, w, w)), affine(q(mix), tm, sm), "interpolation per axis", a, b, 1e-7); }
        { auto const h = g(nm::vec3{ 0.5, 0.25, 0.0 }, nm::vec3{ 0.25, 0.5, 1.0 }, nm::vec3{ 0.0, 0.0, 0.0 }); near(of(h), affine(q(a), { -1.5, 2.75, 3 }, { 1.5, 1.5, 5 }), "interpolation of translation and scale", a, b, 1e-7); }
        int moved = -1, n = 0; for (int i = 0; i < 3; ++i) if (a[i] != b[i]) { moved = i; ++n; } if (n == 1 && std::abs(a[moved] - b[moved]) == 2) { } else if (n == 1 && a[0] * a[1] == 0 && a[0] * a[2] == 0 && a[1] * a[2] == 0 && a == nums{ 0, 0, 0 } && std::abs(b[moved]) == 1) { nm::vec3 half{ 0.0, 0.0, 0.0 }; half[moved] = b[moved] * PI / 4; near(of(nm::affine_transformation_lerp(range{ nm::vec3{} }, range{ nm::vec3{ 1.0, 1.0, 1.0 } }, r, 0.5)), of(nm::affine_rotation_matrix(half)), "interpolation half way", a, b, 1e-7); }
    } });
}
//------------------------------------------------------------------------------------------------- boxes
namespace
{
    template <typename V> std::vector<std::pair<nums, nums>> boxes(double most) { std::vector<std::pair<nums, nums>> r; nums letters; for (double x = 0; x <= most; ++x) letters.push_back(x); auto const all = words_of(letters, V::Size); for (auto const& a : all) for (auto const& b : all) { bool ok = true; for (std::uint32_t i = 0; i < V::Size; ++i) ok = ok && a[i] <= b[i]; if (ok) r.push_back({ a, b }); } return r; }
    template <template <typename> typename Box, typename V> void box_pairs(double most)
    {
        using B = Box<V>; auto const all = boxes<V>(most); nums letters; for (double x = -1; x <= most + 1; ++x) letters.push_back(x); auto const points = words_of(letters, V::Size);
        sliced(all, 16, [&](std::pair<nums, nums> const& p)
        {
            auto const& [lo, hi] = p; B const b{ to<V>(lo), to<V>(hi) }; same(of(nm::aabb_extents(b)), zip(hi, lo, std::minus<>{}), "extents", lo, hi); same(of(nm::aabb_origin(b)), zip(lo, hi, [](double x, double y) { return (x + y) / 2; }), "origin", lo, hi);
            double vol = 1; for (std::uint32_t i = 0; i < V::Size; ++i) if (!(i == 2 && hi[i] == lo[i])) vol *= hi[i] - lo[i]; truth(nm::aabb_volume(b) == vol, "volume", lo, hi);
            for (auto const& x : points) { bool in = true; for (std::uint32_t i = 0; i < V::Size; ++i) in = in && lo[i] <= x[i] && x[i] <= hi[i]; truth(nm::aabb_contains(b, to<V>(x)) == in, "contains a point", joined({ lo }, { hi })[0], x); }
            for (auto const& q : all)
            {
                B const c{ to<V>(q.first), to<V>(q.second) }; bool inside = true, meet = true; for (std::uint32_t i = 0; i < V::Size; ++i) { inside = inside && lo[i] <= q.first[i] && q.second[i] <= hi[i]; meet = meet && std::max(lo[i], q.first[i]) <= std::min(hi[i], q.second[i]); }
                truth(nm::aabb_contains(b, c) == inside, "contains a box", hi, q.second); truth(nm::aabb_intersects(b, c) == meet, "intersects", hi, q.first); auto const u = nm::aabb_union(b, c); same(of(u.min), zip(lo, q.first, [](double x, double y) { return std::min(x, y); }), "union", lo, q.first); same(of(u.max), zip(hi, q.second, [](double x, double y) { return std::max(x, y); }), "union", hi, q.second);
                truth((b == c) == (p == q), "equality", hi, q.second); truth(!(b < c && c < b) && ((b < c || c < b) == (p != q)), "order", hi, q.second);
                neolib::optional<B> const ob{ b }, none; std::optional<B> const oc{ c }, snone; truth(nm::aabb_intersects(ob, oc) == meet && nm::aabb_intersects(ob, c) == meet && nm::aabb_intersects(b, oc) == meet && !nm::aabb_intersects(none, oc) && !nm::aabb_intersects(ob, snone) && !nm::aabb_intersects(none, c) && !nm::aabb_intersects(b, snone), "intersects optional", hi, q.first);
            }
        });
    }
    template <typename V> void bounds(V const& b, nums const& lo, nums const& hi, const char* what, nums const& a) { same(of(b.min), lo, what, a, {}); same(of(b.max), hi, what, a, {}); }
    void extremes(std::vector<nums> const& v, nums& lo, nums& hi) { lo = hi = v[0]; for (auto const& x : v) { lo = zip(lo, x, [](double p, double q) { return std::min(p, q); }); hi = zip(hi, x, [](double p, double q) { return std::max(p, q); }); } }
    std::vector<nums> corners(nums const& lo, nums const& hi) { std::vector<nums> r; for (int m = 0; m < 1 << lo.size(); ++m) { nums c; for (std::size_t i = 0; i < lo.size(); ++i) c.push_back(m >> i & 1 ? hi[i] : lo[i]); r.push_back(c); } return r; }
}
MC_SCENARIO("boxes/3d pairs") { box_pairs<nm::basic_aabb, nm::vec3>(mc::tier(2, 3)); }
MC_SCENARIO("boxes/2d pairs") { box_pairs<nm::basic_aabb_2d, nm::vec2>(mc::tier(3, 5)); }
MC_SCENARIO("boxes/transformed")
{
    sliced(words_of({ 0, 1, 2, 3 }, 3), 8, [&](nums const& q) { for (auto const& t : words_of({ -3, 0, 5 }, 3)) for (double k : { 1.0, 2.0, -1.0 }) {
        auto const g = affine(euler(int(q[0]), int(q[1]), int(q[2])), t, { k, 1, 1 }); auto const m = matrix<nm::mat44, 4, 4>(g.e); nums const lo{ 1, 2, 3 }, hi{ 2, 4, 7 }; std::vector<nums> moved; for (auto c : corners(lo, hi)) { c.push_back(1); auto r = times(g, grid{ 4, 1, c }).e; r.pop_back(); moved.push_back(r); } nums wl, wh; extremes(moved, wl, wh);
        nm::aabb const b{ to<nm::vec3>(lo), to<nm::vec3>(hi) }; bounds(nm::aabb_transform(b, m), wl, wh, "transformed box", q); bounds(nm::aabb_transform(b, m, nm::mat44::identity()), wl, wh, "box transformed twice", q); auto s = nm::mat44::identity(); nm::apply_translation(s, nm::vec3{ 1.0, 1.0, 1.0 }); nums const one(3, 1.0); bounds(nm::aabb_transform(b, s, m), zip(wl, one, std::plus<>{}), zip(wh, one, std::plus<>{}), "box transformed in order", q);
        std::vector<nm::vec3> const vs{ to<nm::vec3>(lo), to<nm::vec3>(hi) }; bounds(nm::to_aabb(vs, m), wl, wh, "to_aabb transformed", q); bounds(nm::to_aabb_2d(vs, m), { wl[0], wl[1] }, { wh[0], wh[1] }, "to_aabb_2d transformed", q); } });
    if (choose(2)) { nm::aabb_2d const b{ nm::vec2{ 1.0, 2.0 }, nm::vec2{ 3.0, 7.0 } }; for (int q = 0; q < 4; ++q) { auto const g = rotation(2, q); std::vector<nums> moved; for (auto c : corners({ 1, 2 }, { 3, 7 })) { c.push_back(0); auto r = times(g, grid{ 3, 1, c }).e; r.pop_back(); moved.push_back(r); } nums wl, wh; extremes(moved, wl, wh); bounds(nm::aabb_transform(b, matrix<nm::mat33, 3, 3>(g.e)), wl, wh, "transformed 2d box", { double(q) }); std::vector<nm::vec2> const vs{ nm::vec2{ 1.0, 7.0 }, nm::vec2{ 3.0, 2.0 } }; bounds(nm::to_aabb_2d(vs, matrix<nm::mat33, 3, 3>(g.e)), wl, wh, "to_aabb_2d transformed", { double(q) }); } }
}
MC_SCENARIO("boxes/around points")
{
    auto const pts = words_of({ -1, 0, 2 }, 3); sliced(pts, 8, [&](nums const& a) { for (auto const& b : pts) for (auto const& c : words_of({ -2, 1 }, 3)) for (int n = 1; n <= 3; ++n) {
        std::vector<nums> l{ a, b, c }; l.resize(n); nums lo, hi; extremes(l, lo, hi); std::vector<nm::vec3> v; neolib::small_vector<nm::vec3, 4> s; std::vector<nm::vec2> v2; neolib::small_vector<nm::vec2, 4> s2; for (auto const& p : l) { v.push_back(to<nm::vec3>(p)); s.push_back(v.back()); v2.push_back(nm::vec2{ p[0], p[1] }); s2.push_back(v2.back()); } nums const lo2{ lo[0], lo[1] }, hi2{ hi[0], hi[1] };
        bounds(nm::to_aabb(v), lo, hi, "to_aabb", a); bounds(nm::to_aabb(s), lo, hi, "to_aabb small", a); bounds(nm::to_aabb_2d(v), lo2, hi2, "to_aabb_2d", a); bounds(nm::to_aabb_2d(s), lo2, hi2, "to_aabb_2d small", a); bounds(nm::to_aabb_2d(v2), lo2, hi2, "to_aabb_2d flat", a); bounds(nm::to_aabb_2d(s2), lo2, hi2, "to_aabb_2d flat small", a); }
        for (double size : { 0.0, 2.0, 3.0 }) { auto d = map(a, [&](double x) { return x - size / 2; }), u = map(a, [&](double x) { return x + size / 2; }); bounds(nm::to_aabb(to<nm::vec3>(a), size), d, u, "to_aabb of a size", a); bounds(nm::to_aabb_2d(nm::vec2{ a[0], a[1] }, size), { d[0], d[1] }, { u[0], u[1] }, "to_aabb_2d of a size", a); bounds(nm::to_aabb(to<nm::vec3>(a), nm::vec3{ size, 2.0, 4.0 }), { d[0], a[1] - 1, a[2] - 2 }, { u[0], a[1] + 1, a[2] + 2 }, "to_aabb of a size vector", a); bounds(nm::to_aabb_2d(nm::vec2{ a[0], a[1] }, nm::vec2{ size, 2.0 }), { d[0], a[1] - 1 }, { u[0], a[1] + 1 }, "to_aabb_2d of a size vector", a); }
        std::vector<nm::vec3> none; bounds(nm::to_aabb(none), { 0, 0, 0 }, { 0, 0, 0 }, "to_aabb of nothing", {}); });
}
MC_SCENARIO("boxes/quads and curves")
{
    sliced(words_of({ 0, 1, 3 }, 4), 4, [](nums const& a) { using nm::vec2; std::array<vec2, 4> const q{ vec2{ a[2], a[3] }, vec2{ a[2] + a[0], a[3] }, vec2{ a[2] + a[0], a[3] + a[1] }, vec2{ a[2], a[3] + a[1] } }; same(of(nm::quad_extents(q)), { a[0], a[1] }, "quad_extents", a, {});
        for (auto const& b : words_of({ -1, 0, 2 }, 4)) { vec2 const p0{ a[0], b[0] }, p1{ a[1], b[1] }, p2{ a[2], b[2] }, p3{ a[3], b[3] }; for (double t : { 0.0, 0.25, 0.5, 1.0 }) { double const u = 1 - t; auto at = [&](nums const& n) { return u * u * u * n[0] + 3 * u * u * t * n[1] + 3 * u * t * t * n[2] + t * t * t * n[3]; }; same(of(nm::bezier_cubic(p0, p1, p2, p3, t)), { at(a), at(b) }, "bezier_cubic", a, b); same(of(nm::bezier_cubic(p0.as<float>(), p1.as<float>(), p2.as<float>(), p3.as<float>(), float(t))), { at(a), at(b) }, "bezier_cubic float", a, b); }
            if (a[3] != a[0]) { same(of(nm::bezier_cubic_x(p0, p1, p2, p3, a[0])), { a[0], b[0] }, "bezier_cubic_x at its start", a, b); same(of(nm::bezier_cubic_x(p0, p1, p2, p3, a[3])), { a[3], b[3] }, "bezier_cubic_x at its end", a, b); } if (b[3] != b[0]) { same(of(nm::bezier_cubic_y(p0, p1, p2, p3, b[0])), { a[0], b[0] }, "bezier_cubic_y at its start", a, b); same(of(nm::bezier_cubic_y(p0, p1, p2, p3, b[3])), { a[3], b[3] }, "bezier_cubic_y at its end", a, b); } } });
}
MC_SCENARIO("boxes/nearly equal") { sliced(words_of({ 0, 0.000001, -0.000001, 0.5, 1, 1.000001 }, 3), 2, [](nums const& a) { nums const o{ 0, 0, 1 }; bool all = true; for (int i = 0; i < 3; ++i) { bool const n = std::abs(a[i] - o[i]) < 0.00001; all = all && n; truth(nm::nearly_equal(a[i], o[i]) == n && nm::nearly_equal(float(a[i]), float(o[i])) == n, "nearly_equal", a, o); } truth(nm::nearly_equal(to<nm::vec3>(a), to<nm::vec3>(o)) == all && nm::nearly_equal(a, o) == all, "nearly_equal of several", a, o); truth(nm::nearly_equal(to<nm::vec3>(a), to<nm::vec3>(o), 2.0) && nm::nearly_equal(int(a[0]), int(o[0])) == (int(a[0]) == int(o[0])), "nearly_equal within", a, o); truth(!nm::nearly_equal(a, nums{ 0, 0 }), "nearly_equal of different lengths", a, o); for (double d : a) { truth(std::abs(nm::to_rad(d * 180) - d * PI) < 1e-12 && std::abs(nm::to_deg(d * PI) - d * 180) < 1e-9, "degrees", a, o); truth(nm::lerp(d, d + 2, 0.5) == d + 1 && nm::lerp(d, d, 1.0) == d, "lerp", a, o); } }); }
//------------------------------------------------------------------------------------------------- counters
template <typename C, typename T> static void counters(int from, int to_, int most)
{
    auto const start = from + int(choose(to_ - from + 1)); mc::heavy();
    for (int end = from; end <= to_; ++end) for (int n = 1; n <= most; ++n) for (int how = 0; how < 4; ++how)
    {
        if (how >= 2 && start != 0) continue; C c = how == 0 ? C{ T(start), T(end), T(n) } : how == 2 ? C{ T(end), T(n) } : C{}; if (how == 1) c.init(T(start), T(end), T(n)); if (how == 3) c.init(T(end), T(n));
        double last = start; for (int i = 0; i < n; ++i) { T const x = how & 1 ? T(c) : c(); double const v = double(x), exact = n > 1 ? start + double(end - start) * i / (n - 1) : start; MC_CHECK(std::abs(v - exact) < 1, "counter", start, " to ", end, " in ", n, ": number ", i, " is ", v); MC_CHECK(end >= start ? v >= last : v <= last, "counter goes back", start, " to ", end, " in ", n, ": number ", i, " is ", v); if (i == 0 || (i == n - 1)) MC_CHECK(v == (i == 0 ? start : end), "counter end", start, " to ", end, " in ", n, ": number ", i, " is ", v); last = v; mc::op(); }
        mc::validated();
    }
}
MC_SCENARIO("counters/int") { counters<neolib::bresenham_counter<int>, int>(-12, 12, 14); }
MC_SCENARIO("counters/alternative int") { counters<neolib::bresenham_counter_alt<int>, int>(-12, 12, 14); }
MC_SCENARIO("counters/unsigned") { counters<neolib::bresenham_counter<unsigned>, unsigned>(0, 20, 14); }
MC_SCENARIO("counters/alternative unsigned") { counters<neolib::bresenham_counter_alt<unsigned>, unsigned>(0, 20, 14); }
MC_SCENARIO("counters/64 bit") { counters<neolib::bresenham_counter<std::int64_t>, std::int64_t>(-12, 12, 14); }
