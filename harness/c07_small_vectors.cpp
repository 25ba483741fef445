// @props C07
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// growable_static_vector / small_vector and polymorphic::vecarray against std::vector: every sequence of operations on
// two vectors whose sizes cross the inline capacity, as a state space (state: contents, capacity, inline or heap).
// Elements count their own lives; the address sanitizer watches the inline buffers.
#include "seqcheck.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/small_vector.hpp>
#include <neolib/core/vecarray.hpp>
#include <neolib/core/polymorphic_vecarray.hpp>
#include <neolib/core/string.hpp>
#include <vector>
using mc::choose; using mc::elem; using seqcheck::val;
namespace
{
    std::string const longText = "a text longer than the small buffer of a string ";
    template <typename E> E make(int v) { if constexpr (std::is_same_v<E, std::string> || std::is_same_v<E, neolib::string>) return E{ (v & 1 ? longText : std::string{}) + char('0' + v) }; else return E(v); }
    template <typename E> int id(E const& e) { if constexpr (std::is_base_of_v<neolib::i_string, E>) { auto s = e.to_std_string(); return s.empty() ? 9 : s.back() - '0'; } else if constexpr (std::is_same_v<E, std::string>) return e.empty() ? 9 : e.back() - '0'; else return val(e); }
    template <typename V> bool inside(V const& v, void const* p) { return p >= static_cast<void const*>(&v) && p < static_cast<void const*>(&v + 1); }
    template <typename V> void same(V const& v, std::vector<int> const& m, const char* who)
    {
        MC_CHECK(v.size() == m.size() && v.empty() == m.empty(), "size", who, v.size(), " expected ", m.size());
        std::vector<int> got; for (auto i = v.begin(); i != v.end(); ++i) { MC_CHECK(got.size() <= m.size(), "iteration", who); got.push_back(id(*i)); } MC_CHECK(got == m, "content", who, ": ", mc::show(got), " expected ", mc::show(m));
        for (std::size_t i = 0; i < m.size(); ++i) MC_CHECK(id(v[i]) == m[i] && id(v.at(i)) == m[i], "index", who, i); if constexpr (!std::is_abstract_v<std::decay_t<decltype(v[0])>>) for (std::size_t i = 0; i < m.size(); ++i) MC_CHECK(id(v.data()[i]) == m[i], "data", who, i); if (!m.empty()) MC_CHECK(id(v.front()) == m.front() && id(v.back()) == m.back(), "ends", who);
        bool threw = false; try { (void)v.at(m.size()); } catch (std::out_of_range const&) { threw = true; } MC_CHECK(threw, "at", who); MC_CHECK(v.capacity() >= v.size(), "capacity", who);
    }
}
//------------------------------------------------------------------------------------------------- growable_static_vector
template <typename E, std::size_t N, std::size_t Max> static void explore_growable()
{
    typedef neolib::growable_static_vector<E, N, Max> V; mc::holder<V> h0, h1; std::vector<int> m[2]; auto const cap = std::uint32_t(Max == std::size_t(-1) ? N + mc::tier(2, 3) : Max);
    auto check = [&](V& v, std::vector<int> const& r, const char* who) { V const& cv = v; same(cv, r, who); std::vector<int> rev; for (auto i = cv.rbegin(); i != cv.rend(); ++i) rev.push_back(id(*i)); MC_CHECK(rev == std::vector<int>(r.rbegin(), r.rend()), "reverse", who); MC_CHECK(cv.max_size() >= r.size() && cv.available() == cv.max_size() - r.size(), "max_size", who); if (Max != std::size_t(-1)) MC_CHECK(cv.max_size() == Max, "max_size", who); };
    for (;;)
    {
        std::uint64_t h = 3; for (int i = 0; i < 2; ++i) { V& v = i ? *h1 : *h0; for (int x : m[i]) mc::hash_combine(h, x); mc::hash_combine(h, 99 + v.capacity()); mc::hash_combine(h, inside(v, v.data())); } mc::checkpoint(h);
        auto w = choose(2); V& v = w ? *h1 : *h0; V& o = w ? *h0 : *h1; auto& r = m[w]; auto& ro = m[1 - w]; auto const n = std::uint32_t(r.size()); int const x = int(choose(2)); auto at = [&](std::size_t p) { return v.begin() + std::ptrdiff_t(p); }; auto const full = n >= cap;
        auto one = [&](auto&& f) { if (!full) return f(), true; if (Max == std::size_t(-1)) throw mc::prune{}; bool threw = false; try { f(); } catch (std::length_error const&) { threw = true; } MC_CHECK(threw, "limit", "no length_error"); return false; };
        switch (choose(17))
        {
        case 0: { auto k = choose(3); MC_TRACE(w, " push_back ", x, " ", k); if (one([&] { if (k == 0) v.push_back(make<E>(x)); else if (k == 1) { auto e = make<E>(x); v.push_back(e); } else v.emplace_back(make<E>(x)); })) r.push_back(x); break; }
        case 1: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE(w, " push_back own ", p); if (one([&] { v.push_back(v[p]); })) r.push_back(int(r[p])); break; }
        case 2: { auto p = choose(n + 1); auto k = choose(3); MC_TRACE(w, " insert ", p, " ", x); if (one([&] { auto e = make<E>(x); auto i = k == 0 ? v.insert(at(p), e) : k == 1 ? v.insert(at(p), std::move(e)) : v.emplace(at(p), std::move(e)); MC_CHECK(i == at(p), "returned", ""); })) r.insert(r.begin() + p, x); break; }
        case 3: { if (!n || full) throw mc::prune{}; auto p = choose(n + 1), q = choose(n); MC_TRACE(w, " insert own ", q, " at ", p); v.insert(at(p), v[q]); r.insert(r.begin() + p, int(r[q])); break; }
        case 4: { auto p = choose(n + 1), c = choose(3); if (n + c > cap) throw mc::prune{}; MC_TRACE(w, " insert ", p, " ", c, " copies"); auto i = v.insert(at(p), c, make<E>(x)); MC_CHECK(i == at(p), "returned", ""); r.insert(r.begin() + p, c, x); break; }
        case 5: { auto p = choose(n + 1); if (n + ro.size() > cap) throw mc::prune{}; MC_TRACE(w, " insert other at ", p); auto i = v.insert(at(p), o.begin(), o.end()); MC_CHECK(i == at(p), "returned", ""); r.insert(r.begin() + p, ro.begin(), ro.end()); break; }
        case 6: { auto f = choose(n + 1), l = f + choose(n - f + 1); MC_TRACE(w, " erase ", f, "..", l); auto i = l == f + 1 ? v.erase(at(f)) : v.erase(at(f), at(l)); MC_CHECK(i == at(f), "returned", ""); r.erase(r.begin() + f, r.begin() + l); break; }
        case 7: { if (!n) throw mc::prune{}; MC_TRACE(w, " pop_back"); v.pop_back(); r.pop_back(); break; }
        case 8: { auto z = choose(cap + 1); MC_TRACE(w, " resize ", z); v.resize(z, make<E>(x)); r.resize(z, x); break; }
        case 9: { auto z = choose(cap + 1); MC_TRACE(w, " reserve ", z); v.reserve(z); MC_CHECK(v.capacity() >= z, "reserve", ""); break; }
        case 10: { auto k = choose(2); MC_TRACE(w, " clear/shrink ", k); if (k) { v.clear(); r.clear(); } else v.shrink_to_fit(); break; }
        case 11: { auto z = choose(cap + 1); MC_TRACE(w, " assign ", z); auto k = choose(3); if (k == 0) v.assign(z, make<E>(x)); else if (k == 1) { std::vector<E> t(z, make<E>(x)); v.assign(t.begin(), t.end()); } else { std::vector<E> t(z, make<E>(x)); V u{ t }; v = u; } r.assign(z, x); break; }
        case 12: { auto k = choose(7); MC_TRACE(w, " = other ", k); V const& co = o;
            switch (k) { case 0: v = co; r = ro; break; case 1: v = V{ co }; r = ro; break; case 2: { V t{ std::move(o) }; check(t, ro, "moved-to"); o.clear(); v = t; r = ro; ro.clear(); break; } case 3: v = std::move(o); r = ro; o.clear(); ro.clear(); break; case 4: { V t{ co.as_std_vector() }; v = t; r = ro; break; } case 5: { V t(co.begin(), co.end()); check(t, ro, "range"); v = t; r = ro; break; } case 6: v = { make<E>(0), make<E>(1) }; r = { 0, 1 }; if (cap < 2) throw mc::prune{}; break; } break; }
        case 13: { auto k = choose(3); MC_TRACE("swap ", k); if (k == 0) v.swap(o); else if (k == 1) std::swap(v, o); else { using std::swap; swap(v, o); } std::swap(r, ro); break; }
        case 14: { MC_TRACE(w, " self"); V& s = v; v = s; break; }
        case 15: { auto k = choose(2); MC_TRACE(w, " copy outlives ", k); { mc::holder<V> t; *t = v; auto c = (*t).as_std_vector(); auto d = (*t).to_std_vector(); (*t).clear(); (*t).push_back(make<E>(1 - x)); if (k == 0) { mc::holder<V> gone; auto* g = new V(v); auto e = g->as_std_vector(); delete g; MC_CHECK(e.size() == r.size(), "copy", ""); for (std::size_t i = 0; i < r.size(); ++i) MC_CHECK(id(e[i]) == r[i], "copy", "std copy of a destroyed vector"); if (e.size() < e.max_size()) e.push_back(make<E>(0)); } MC_CHECK(c.size() == r.size() && d.size() == r.size(), "copy", ""); for (std::size_t i = 0; i < r.size(); ++i) MC_CHECK(id(c[i]) == r[i] && id(d[i]) == r[i], "copy", "std copy"); } break; }
        case 16: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE(w, " write ", p); v[p] = make<E>(1 - r[p]); r[p] = 1 - r[p]; break; }
        }
        check(*h0, m[0], "first"); check(*h1, m[1], "second"); if (inside(*h0, h0->data()) || inside(*h1, h1->data())) MC_CHECK(h0->data() != h1->data(), "shared", "");
        if constexpr (requires { *h0 < *h1; }) MC_CHECK((*h0 == *h1) == (m[0] == m[1]) && (*h0 < *h1) == (m[0] < m[1]), "compare", ""); mc::validated();
    }
}
MC_STATESPACE("small_vector/elem/1", 4, 30) { explore_growable<elem, 1, std::size_t(-1)>(); }
MC_STATESPACE("small_vector/elem/2", 3, 30) { explore_growable<elem, 2, std::size_t(-1)>(); }
MC_STATESPACE("small_vector/string/1-2", 4, 30) { explore_growable<std::string, 1, 2>(); }
//------------------------------------------------------------------------------------------------- polymorphic::vecarray
template <typename E, std::size_t N, std::size_t Max> static void explore_polymorphic()
{
    typedef neolib::polymorphic::vecarray<E, N, Max> V; typedef typename V::abstract_type A; typedef typename V::abstract_value_type T; mc::holder<V> h0, h1; std::vector<int> m[2]; auto const cap = std::uint32_t(Max);
    auto check = [&](V& v, std::vector<int> const& r, const char* who) { V const& cv = v; A& a = v; A const& ca = v; same(cv, r, who); same(ca, r, who); std::vector<int> rev; for (auto i = a.end(); i != a.begin();) { --i; rev.push_back(id(*i)); } MC_CHECK(rev == std::vector<int>(r.rbegin(), r.rend()), "reverse", who); MC_CHECK(cv.max_size() == Max && cv.available() == Max - r.size(), "max_size", who); };
    for (;;)
    {
        std::uint64_t h = 3; for (int i = 0; i < 2; ++i) { V& v = i ? *h1 : *h0; for (int x : m[i]) mc::hash_combine(h, x); mc::hash_combine(h, 99 + v.capacity()); mc::hash_combine(h, inside(v, v.data())); } mc::checkpoint(h);
        auto w = choose(2); V& v = w ? *h1 : *h0; V& o = w ? *h0 : *h1; A& a = v; A& oa = o; auto& r = m[w]; auto& ro = m[1 - w]; auto const n = std::uint32_t(r.size()); int const x = int(choose(2)); auto at = [&](std::size_t p) { return a.begin() + std::ptrdiff_t(p); }; auto const full = n >= cap;
        auto one = [&](auto&& f) { if (!full) return f(), true; bool threw = false; try { f(); } catch (std::length_error const&) { threw = true; } MC_CHECK(threw, "limit", "no length_error"); return false; };
        switch (choose(15))
        {
        case 0: { auto k = choose(3); MC_TRACE(w, " push_back ", x, " ", k); auto e = make<E>(x); if (one([&] { if (k == 0) a.push_back(static_cast<T const&>(e)); else if (k == 1) v.push_back(e); else v.emplace_back(e); })) r.push_back(x); break; }
        case 1: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE(w, " push_back own ", p); if (one([&] { a.push_back(a[p]); })) r.push_back(int(r[p])); break; }
        case 2: { auto p = choose(n + 1); auto k = choose(2); MC_TRACE(w, " insert ", p, " ", x); auto e = make<E>(x); if (one([&] { auto i = k == 0 ? a.insert(at(p), static_cast<T const&>(e)) : v.emplace(at(p), e); MC_CHECK(i - a.begin() == std::ptrdiff_t(p), "returned", ""); })) r.insert(r.begin() + p, x); break; }
        case 3: { if (!n || full) throw mc::prune{}; auto p = choose(n + 1), q = choose(n); MC_TRACE(w, " insert own ", q, " at ", p); a.insert(at(p), a[q]); r.insert(r.begin() + p, int(r[q])); break; }
        case 4: { auto p = choose(n + 1); auto k = choose(2); if (n + ro.size() > cap) throw mc::prune{}; MC_TRACE(w, " insert other at ", p); std::vector<E> t; for (int y : ro) t.push_back(make<E>(y)); auto i = k == 0 ? v.insert(at(p), t.begin(), t.end()) : v.insert(at(p), oa.cbegin(), oa.cend()); MC_CHECK(i - a.begin() == std::ptrdiff_t(p), "returned", ""); r.insert(r.begin() + p, ro.begin(), ro.end()); break; }
        case 5: { auto f = choose(n + 1), l = f + choose(n - f + 1); MC_TRACE(w, " erase ", f, "..", l); auto i = l == f + 1 ? a.erase(at(f)) : a.erase(at(f), at(l)); MC_CHECK(i - a.begin() == std::ptrdiff_t(f), "returned", ""); r.erase(r.begin() + f, r.begin() + l); break; }
        case 6: { if (!n) throw mc::prune{}; MC_TRACE(w, " pop_back"); a.pop_back(); r.pop_back(); break; }
        case 7: { auto z = choose(cap + 1); MC_TRACE(w, " resize ", z); auto e = make<E>(x); a.resize(z, static_cast<T const&>(e)); r.resize(z, x); break; }
        case 8: { auto z = choose(n + 1); MC_TRACE(w, " shrink ", z); a.resize(z); r.resize(z); break; }
        case 9: { auto z = choose(cap + 1); MC_TRACE(w, " reserve ", z); a.reserve(z); MC_CHECK(a.capacity() >= z, "reserve", ""); break; }
        case 10: { MC_TRACE(w, " clear"); a.clear(); r.clear(); break; }
        case 11: { auto k = choose(10); MC_TRACE(w, " = other ", k); V const& co = o; A const& coa = o;
            switch (k) { case 0: v = co; r = ro; break; case 1: v = V{ co }; r = ro; break; case 2: { V t{ std::move(o) }; check(t, ro, "moved-to"); o.clear(); v = t; r = ro; ro.clear(); break; } case 3: v = std::move(o); r = ro; o.clear(); ro.clear(); break; case 4: { V t{ co.as_std_vector() }; v = t; r = ro; break; } case 5: { std::vector<E> u; for (int y : ro) u.push_back(make<E>(y)); V t(u.begin(), u.end()); check(t, ro, "range"); v = t; r = ro; break; }
                case 6: v = V{ make<E>(0), make<E>(1) }; r = { 0, 1 }; break; case 7: { V t{ coa }; check(t, ro, "abstract copy"); v = coa; r = ro; break; } case 8: a.assign(coa); r = ro; break; case 9: { auto t = co.to_std_vector(); MC_CHECK(t.size() == ro.size(), "copy", ""); for (std::size_t i = 0; i < ro.size(); ++i) MC_CHECK(id(t[i]) == ro[i], "copy", ""); break; } } break; }
        case 12: { MC_TRACE("swap"); using std::swap; swap(v, o); std::swap(r, ro); break; }
        case 13: { auto k = choose(3); MC_TRACE(w, " self"); V& s = v; if (k == 0) v = s; else if (k == 1) a.assign(a); else v = static_cast<A const&>(a); break; }
        case 14: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE(w, " write ", p); a[p] = make<E>(1 - r[p]); r[p] = 1 - r[p]; break; }
        }
        check(*h0, m[0], "first"); check(*h1, m[1], "second"); MC_CHECK(!n || h0->data() != h1->data(), "shared", ""); MC_CHECK((*h0 == *h1) == (m[0] == m[1]) && (static_cast<A const&>(*h0) == static_cast<A const&>(*h1)) == (m[0] == m[1]), "compare", ""); mc::validated();
    }
}
MC_STATESPACE("vecarray/elem/2", 5, 30) { explore_polymorphic<elem, 2, 2>(); }
MC_STATESPACE("vecarray/elem/2-3", 4, 30) { explore_polymorphic<elem, 2, 3>(); }
MC_STATESPACE("vecarray/string/2-3", 3, 30) { explore_polymorphic<neolib::string, 2, 3>(); }
