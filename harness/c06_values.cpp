// @props C06
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// string, optional, pair, variant and plugin_variant through their concrete and abstract interfaces, against
// std::string, std::optional, std::pair and std::variant: every operation sequence as a state space.
#include "seqcheck.hpp"
#include <neolib/core/string.hpp>
#include <neolib/core/optional.hpp>
#include <neolib/core/pair.hpp>
#include <neolib/core/variant.hpp>
#include <neolib/plugin/plugin_variant.hpp>
#include <sstream>
#include <unordered_map>
using mc::choose; using mc::elem;
namespace
{
    typedef neolib::string nstr; typedef neolib::i_string istr;
    std::string text(int v) { return v == 0 ? "" : v == 1 ? "ab" : "b, a text longer than the small buffer holds"; }
    int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
    int sign(std::partial_ordering o) { return o == std::partial_ordering::unordered ? 9 : o < 0 ? -1 : o > 0 ? 1 : 0; }
    template <typename T> int three(T const& a, T const& b) { return a < b ? -1 : b < a ? 1 : 0; }
}
//------------------------------------------------------------------------------------------------- string
static void check_string(nstr& s, std::string const& m, const char* who)
{
    istr& a = s; istr const& ca = s; nstr const& cs = s;
    MC_CHECK(s.size() == m.size() && a.length() == m.size() && a.empty() == m.empty(), "size", who, s.size(), " for ", m);
    MC_CHECK(ca.to_std_string() == m && cs.to_std_string_view() == m && cs.as_std_string() == m && std::string{ ca.c_str() } == m && ca.c_str()[m.size()] == 0 && std::string(ca.cdata(), m.size()) == m && std::string(a.data(), m.size()) == m, "content", who, ": ", ca.to_std_string(), " expected ", m);
    std::string f; for (auto i = ca.begin(); i != ca.end(); ++i) f += *i; MC_CHECK(f == m, "iteration", who); f.clear(); for (auto i = a.end(); i != a.begin();) { --i; f += *i; } MC_CHECK(f == std::string(m.rbegin(), m.rend()), "iteration", who);
    for (std::size_t i = 0; i < m.size(); ++i) MC_CHECK(a[i] == m[i] && ca[i] == m[i] && a.at(i) == m[i] && ca.at(i) == m[i] && *(ca.begin() + std::ptrdiff_t(i)) == m[i], "index", who, i);
    bool threw = false; try { (void)ca.at(m.size()); } catch (std::out_of_range const&) { threw = true; } MC_CHECK(threw, "at", who);
    if (!m.empty()) MC_CHECK(a.front() == m.front() && ca.back() == m.back() && ca.front() == m.front() && a.back() == m.back(), "ends", who);
    MC_CHECK(std::hash<nstr>()(s) == std::hash<std::string>()(m) && std::hash<istr>()(ca) == std::hash<std::string>()(m), "hash", who);
    std::ostringstream o; o << ca; MC_CHECK(o.str() == m, "output", who);
    nstr copy{ s }, icopy{ ca }; MC_CHECK(copy == s && icopy == ca && ca == icopy && copy == ca && copy.to_std_string() == m && icopy.to_std_string() == m, "copy", who);
    neolib::string_view sv{ ca.to_std_string_view() }; nstr vcopy{ static_cast<neolib::i_string_view const&>(sv) }; MC_CHECK(vcopy.to_std_string() == m, "copy", who);
}
template <bool Long> static void explore_string()
{
    mc::holder<nstr> s; std::string m; auto const max = std::size_t(mc::tier(4, 5));
    auto word = [&]() { auto w = choose(Long ? 4 : 4); return std::string(w == 0 ? "" : w == 1 ? "a" : w == 2 ? "b" : "ab"); };
    if (Long) { m = std::string(14, 'a'); *s = m; }          // around the small-buffer size of std::string
    auto const cap = Long ? 18 : max;
    for (;;)
    {
        std::uint64_t h = 3; for (char c : m) mc::hash_combine(h, c); mc::checkpoint(h);
        istr& a = *s; auto const n = std::uint32_t(m.size()); auto fit = [&](std::size_t r) { if (r > cap) throw mc::prune{}; };
        auto where = [&](std::uint32_t lim) { return Long ? (choose(2) ? lim : 0u) : choose(lim + 1); };
        switch (choose(12))
        {
        case 0: { fit(n + 1); char c = "ab"[choose(2)]; MC_TRACE("push_back ", c); a.push_back(c); m.push_back(c); break; }
        case 1: { if (!n) throw mc::prune{}; MC_TRACE("pop_back"); a.pop_back(); m.pop_back(); break; }
        case 2: { fit(n + 1); auto p = where(n); char c = "ab"[choose(2)]; MC_TRACE("insert ", p, " ", c); auto r = a.insert(a.begin() + std::ptrdiff_t(p), c); m.insert(m.begin() + p, c); MC_CHECK(r - a.begin() == std::ptrdiff_t(p) && *r == c, "returned", "insert"); break; }
        case 3: { if (!n) throw mc::prune{}; auto p = where(n - 1); MC_TRACE("erase ", p); auto r = a.erase(a.begin() + std::ptrdiff_t(p)); m.erase(m.begin() + p); MC_CHECK(r - a.begin() == std::ptrdiff_t(p), "returned", "erase"); break; }
        case 4: { auto f = where(n), l = f + where(n - f); MC_TRACE("erase ", f, "..", l); auto r = a.erase(a.begin() + std::ptrdiff_t(f), a.begin() + std::ptrdiff_t(l)); m.erase(m.begin() + f, m.begin() + l); MC_CHECK(r - a.begin() == std::ptrdiff_t(f), "returned", "erase range"); break; }
        case 5: { auto z = Long ? where(std::uint32_t(cap)) : choose(std::uint32_t(cap) + 1); MC_TRACE("resize ", z); a.resize(z, 'b'); m.resize(z, 'b'); break; }
        case 6: { auto k = choose(9); auto w = word(); MC_TRACE("assign ", k, " ", w); nstr ws{ w }; neolib::string_view sv{ w };
            switch (k) { case 0: a.assign(static_cast<istr const&>(ws)); break; case 1: a.assign(static_cast<neolib::i_string_view const&>(sv)); break; case 2: a.assign(w.c_str()); break; case 3: a.assign(w); break; case 4: a.assign(std::string_view{ w }); break; case 5: *s = ws; break; case 6: *s = std::move(ws); break; case 7: a = static_cast<istr const&>(ws); break; case 8: s->assign(static_cast<neolib::i_container<char, neolib::i_random_access_const_iterator<char>, neolib::i_random_access_iterator<char>> const&>(ws)); break; } m = w; break; }
        case 7: { auto k = choose(7); auto w = word(); fit(n + w.size()); MC_TRACE("append ", k, " ", w); nstr ws{ w }; neolib::string_view sv{ w };
            switch (k) { case 0: a.append(static_cast<istr const&>(ws)); break; case 1: a.append(static_cast<neolib::i_string_view const&>(sv)); break; case 2: a.append(w.c_str()); break; case 3: a.append(w); break; case 4: a += ws; break; case 5: *s += ws; break; case 6: *s = *s + ws; break; } m += w; break; }
        case 8: { auto k = choose(6); MC_TRACE("self ", k); auto f = where(n), l = where(n - f); neolib::string_view sv{ a.c_str() + f, l };
            switch (k) { case 0: { nstr& r = *s; *s = r; a.assign(a); break; } case 1: fit(n * 2); a.append(a); m += std::string(m); break; case 2: a.assign(a.c_str() + f, l); m = m.substr(f, l); break; case 3: fit(n + l); a.append(a.c_str() + f, l); m += m.substr(f, l); break; case 4: a.assign(static_cast<neolib::i_string_view const&>(sv)); m = m.substr(f, l); break; case 5: fit(n + l); a.append(static_cast<neolib::i_string_view const&>(sv)); m += m.substr(f, l); break; } break; }
        case 9: { auto x = word(), y = word(); MC_TRACE("replace_all ", x, " ", y); std::string r; if (x.empty()) r = m; else for (std::size_t i = 0; i < m.size();) if (m.compare(i, x.size(), x) == 0) { r += y; i += x.size(); } else r += m[i++]; fit(r.size()); nstr nx{ x }, ny{ y }; a.replace_all(nx, ny); m = r; break; }
        case 10: { if (!n) throw mc::prune{}; auto p = where(n - 1); MC_TRACE("write ", p); auto k = choose(4); char c = m[p] == 'a' ? 'b' : 'a'; if (k == 0) a[p] = c; else if (k == 1) a.at(p) = c; else if (k == 2) a.data()[p] = c; else *(a.begin() + std::ptrdiff_t(p)) = c; m[p] = c; break; }
        case 11: { MC_TRACE("clear / compare"); auto w = word(); nstr o{ w }; istr const& io = o; istr const& ia = *s; MC_CHECK(sign(*s <=> o) == three(m, w) && sign(ia <=> io) == three(m, w) && sign(*s <=> io) == three(m, w) && sign(ia <=> o) == three(m, w) && (*s == o) == (m == w) && (ia == io) == (m == w) && (*s == io) == (m == w) && (io == *s) == (m == w), "compare", m, " with ", w);
            std::istringstream in{ w + "  rest" }; istr& oo = o; in >> oo; MC_CHECK(o.to_std_string() == (w.empty() ? "rest" : w), "input", ""); nstr mv{ std::move(*s) }; check_string(mv, m, "moved-to"); s->clear(); m.clear(); break; }
        }
        check_string(*s, m, "s"); mc::validated();
    }
}
MC_STATESPACE("string/short", 6, 30) { explore_string<false>(); }
MC_STATESPACE("string/long", 4, 30) { explore_string<true>(); }
//------------------------------------------------------------------------------------------------- optional
namespace
{
    template <typename E> struct kit;
    template <> struct kit<int> { typedef int abstract; static int make(int v) { return v; } static int id(int e) { return e; } };
    template <> struct kit<elem> { typedef elem abstract; static elem make(int v) { return elem(v); } static int id(elem const& e) { return e.get(); } };
    template <> struct kit<nstr> { typedef istr abstract; static nstr make(int v) { return text(v); } static int id(istr const& s) { for (int v = 0; v < 3; ++v) if (s.to_std_string() == text(v)) return v; mc::fail("value", s.to_std_string()); } };
}
template <typename E> static void explore_optional()
{
    typedef neolib::optional<E> O; typedef typename O::abstract_type A; typedef kit<E> K; typedef typename K::abstract T; mc::holder<O> hs, ho; std::optional<int> m[2];
    auto check = [&](O& x, std::optional<int> const& r, const char* who) { A& a = x; A const& ca = x; O const& cx = x; MC_CHECK(x.has_value() == r.has_value() && ca.has_value() == r.has_value() && bool(a) == r.has_value() && (cx == std::nullopt) == !r && (ca == std::nullopt) == !r && (cx != std::nullopt) == bool(r), "has_value", who);
        bool threw = false; try { MC_CHECK(K::id(ca.value()) == r.value_or(-1) && K::id(a.value()) == *r && K::id(x.value()) == *r && K::id(*ca) == *r && K::id(*a) == *r && &*cx == &cx.value() && x.operator->() == &x.value(), "value", who); } catch (std::bad_optional_access const&) { threw = true; } MC_CHECK(threw == !r, "value", who);
        auto d = K::make(2); T& ad = d; T const& cad = d; MC_CHECK(K::id(ca.value_or(cad)) == r.value_or(2) && K::id(a.value_or(ad)) == r.value_or(2) && K::id(ca.value_or(ad)) == r.value_or(2), "value_or", who); };
    for (;;)
    {
        std::uint64_t h = 3; for (auto& r : m) mc::hash_combine(h, r ? *r : 9); mc::checkpoint(h);
        auto w = choose(2); O& s = w ? *ho : *hs; O& o = w ? *hs : *ho; auto& ms = m[w]; auto& mo = m[1 - w]; A& a = s;
        switch (choose(9))
        {
        case 0: { int v = choose(3); auto e = K::make(v); auto k = choose(4); MC_TRACE(w, " = ", v, " ", k); if (k == 0) a = static_cast<T const&>(e); else if (k == 1) s = e; else if (k == 2) s.emplace(e); else s = O{ e }; ms = v; break; }
        case 1: { auto k = choose(4); MC_TRACE(w, " reset ", k); if (k == 0) s.reset(); else if (k == 1) a.reset(); else if (k == 2) s = std::nullopt; else a = std::nullopt; ms.reset(); break; }
        case 2: { MC_TRACE(w, " copied from other"); auto k = choose(4); if (k == 0) s = o; else if (k == 1) a = static_cast<A const&>(o); else if (k == 2) s = O{ static_cast<A const&>(o) }; else s = O{ o }; ms = mo; break; }
        case 3: { MC_TRACE(w, " self"); auto k = choose(3); O& r = s; A& ar = s; if (k == 0) s = r; else if (k == 1) a = ar; else if (s.has_value()) a = a.value(); break; }
        case 4: { if (!ms) throw mc::prune{}; int v = choose(3); auto e = K::make(v); auto k = choose(3); MC_TRACE(w, " value() = ", v); if (k == 0) s.value() = e; else if (k == 1) *a = e; else a.value() = static_cast<T const&>(e); ms = v; break; }
        case 5: { MC_TRACE(w, " compare"); MC_CHECK((s == o) == (ms == mo) && sign(s <=> o) == three(ms, mo), "compare", ""); A const& ca = s; A const& co = o; MC_CHECK((ca == co) == (ms == mo) && sign(ca <=> co) == three(ms, mo), "compare", ""); int v = choose(3); auto e = K::make(v); MC_CHECK((s == e) == (ms == v) && (e == s) == (ms == v) && sign(s <=> e) == three(ms, std::optional<int>(v)) && sign(e <=> s) == three(std::optional<int>(v), ms), "compare with value", v);
            MC_CHECK((ca == static_cast<T const&>(e)) == (ms == v) && (static_cast<T const&>(e) == ca) == (ms == v) && sign(ca <=> static_cast<T const&>(e)) == three(ms, std::optional<int>(v)), "compare with value", v); break; }
        case 6: { MC_TRACE(w, " from std"); std::optional<E> t; int v = choose(4); if (v < 3) t = K::make(v); s = O{ t }; if (v < 3) ms = v; else ms.reset(); MC_CHECK(s.to_std_optional().has_value() == ms.has_value() && s.as_std_optional().has_value() == ms.has_value(), "std", ""); break; }
        case 7: if constexpr (std::is_same_v<E, int>) { MC_TRACE(w, " through a stream"); std::stringstream t; t << o; t >> s; ms = mo; break; } else throw mc::prune{};
        case 8: { MC_TRACE(w, " swapped"); O t{ std::move(s) }; s = std::move(o); o = std::move(t); std::swap(ms, mo); break; }
        }
        check(*hs, m[0], "first"); check(*ho, m[1], "second"); mc::validated();
    }
}
MC_STATESPACE("optional/int", 8, 30) { explore_optional<int>(); }
MC_STATESPACE("optional/elem", 8, 30) { explore_optional<elem>(); }
MC_STATESPACE("optional/string", 8, 30) { explore_optional<nstr>(); }
//------------------------------------------------------------------------------------------------- pair
template <typename E1, typename E2> static void explore_pair()
{
    typedef neolib::pair<E1, E2> P; typedef typename P::abstract_type A; typedef kit<E1> K; typedef kit<E2> L; mc::holder<P> hs, ho; std::pair<int, int> m[2];
    for (;;)
    {
        std::uint64_t h = 3; for (auto& r : m) { mc::hash_combine(h, r.first); mc::hash_combine(h, r.second); } mc::checkpoint(h);
        auto w = choose(2); P& s = w ? *ho : *hs; P& o = w ? *hs : *ho; auto& ms = m[w]; auto& mo = m[1 - w]; A& a = s; A& oa = o;
        switch (choose(6))
        {
        case 0: { int v = choose(3); auto e = K::make(v); auto k = choose(2); MC_TRACE(w, " first ", v); if (k) a.first() = e; else s.first() = e; ms.first = v; break; }
        case 1: { int v = choose(3); auto e = L::make(v); auto k = choose(2); MC_TRACE(w, " second ", v); if (k) a.second() = e; else s.second() = e; ms.second = v; break; }
        case 2: { auto k = choose(5); MC_TRACE(w, " = other ", k); if (k == 0) s = o; else if (k == 1) a = oa; else if (k == 2) s = P{ oa }; else if (k == 3) s = P{ o }; else s = P{ o.first(), o.second() }; ms = mo; break; }
        case 3: { MC_TRACE(w, " self"); P& r = s; A& ar = s; s = r; a = ar; break; }
        case 4: { MC_TRACE("swap"); if (choose(2)) { swap(s, o); } else { P t{ std::move(s) }; s = std::move(o); o = std::move(t); } std::swap(ms, mo); break; }
        case 5: { MC_TRACE("compare"); MC_CHECK((s == o) == (ms == mo) && sign(s <=> o) == three(ms, mo) && (static_cast<A const&>(s) == static_cast<A const&>(o)) == (ms == mo) && sign(static_cast<A const&>(s) <=> static_cast<A const&>(o)) == three(ms, mo), "compare", ""); auto [x, y] = s; MC_CHECK(K::id(x) == ms.first && L::id(y) == ms.second, "binding", ""); auto q = neolib::make_pair(s.first(), s.second()); MC_CHECK(q == s, "make_pair", ""); break; }
        }
        for (int i = 0; i < 2; ++i) { P& p = i ? *ho : *hs; A const& cp = p; P const& pp = p; MC_CHECK(K::id(cp.first()) == m[i].first && L::id(cp.second()) == m[i].second && K::id(pp.first()) == m[i].first && L::id(p.second()) == m[i].second, "content", i); }
        mc::validated();
    }
}
MC_STATESPACE("pair/int-int", 8, 30) { explore_pair<int, int>(); }
MC_STATESPACE("pair/int-string", 8, 30) { explore_pair<int, nstr>(); }
MC_STATESPACE("pair/string-elem", 8, 30) { explore_pair<nstr, elem>(); }
//------------------------------------------------------------------------------------------------- variant
namespace { typedef std::pair<int, int> mv; /* alternative 0 none, 1 int, 2 string, 3 elem; value */ }
MC_STATESPACE("variant", 8, 30)
{
    typedef neolib::variant<int, nstr, elem> V; typedef V::abstract_type A; mc::holder<V> hs, ho; mv m[2] = {};
    auto check = [&](V& v, mv const& r, const char* who) { A& a = v; A const& ca = v; MC_CHECK(v.index() == std::size_t(r.first) && ca.index() == std::size_t(r.first), "index", who, v.index());
        MC_CHECK(std::holds_alternative<int>(v) == (r.first == 1) && std::holds_alternative<nstr>(v) == (r.first == 2) && std::holds_alternative<elem>(v) == (r.first == 3) && (v == neolib::none) == (r.first == 0) && ca.holds_alternative<int>() == (r.first == 1) && ca.holds_alternative<istr>() == (r.first == 2) && ca.holds_alternative<elem>() == (r.first == 3), "alternative", who);
        if (r.first == 1) MC_CHECK(std::get<int>(v) == r.second && ca.get<int>() == r.second && *a.get_if<int>() == r.second, "value", who); else MC_CHECK(ca.get_if<int>() == nullptr, "value", who);
        if (r.first == 2) MC_CHECK(std::get<nstr>(v).to_std_string() == text(r.second) && ca.get<istr>().to_std_string() == text(r.second) && a.get_if<istr>()->to_std_string() == text(r.second), "value", who); else MC_CHECK(a.get_if<istr>() == nullptr, "value", who);
        if (r.first == 3) MC_CHECK(std::get<elem>(v).get() == r.second && ca.get<elem>().get() == r.second, "value", who);
        bool threw = false; try { (void)ca.get<int>(); } catch (std::bad_variant_access const&) { threw = true; } MC_CHECK(threw == (r.first != 1), "get", who);
        int seen = -1; std::visit([&](auto&& x) { using X = std::decay_t<decltype(x)>; seen = std::is_same_v<X, int> ? 1 : std::is_same_v<X, nstr> ? 2 : std::is_same_v<X, elem> ? 3 : 0; }, v); MC_CHECK(seen == r.first, "visit", who);
        seen = 0; try { neolib::visit([&](auto&& x) { using X = std::decay_t<decltype(x)>; seen = std::is_same_v<X, int> ? 1 : std::is_same_v<X, istr> ? 2 : 3; }, ca); } catch (std::bad_variant_access const&) {} MC_CHECK(seen == r.first, "visit", who); };
    for (;;)
    {
        std::uint64_t h = 3; for (auto& r : m) { mc::hash_combine(h, r.first); mc::hash_combine(h, r.second); } mc::checkpoint(h);
        auto w = choose(2); V& s = w ? *ho : *hs; V& o = w ? *hs : *ho; auto& ms = m[w]; auto& mo = m[1 - w]; A& a = s; A& oa = o;
        switch (choose(7))
        {
        case 0: { int v = choose(2); auto k = choose(4); MC_TRACE(w, " = int ", v, " ", k); int const cv = v; int lv = v; if (k == 0) s = cv; else if (k == 1) s = int(v); else if (k == 2) a = cv; else s = lv; ms = { 1, v }; break; }
        case 1: { int v = choose(3); auto k = choose(6); MC_TRACE(w, " = string ", v, " ", k); nstr const t{ text(v) }; nstr u{ text(v) }; if (k == 0) s = t; else if (k == 1) s = nstr{ t }; else if (k == 2) a = static_cast<istr const&>(t); else if (k == 3) s = static_cast<istr const&>(t); else if (k == 4) s = V{ static_cast<istr const&>(t) }; else { s = u; MC_CHECK(u == t, "source", "assigning from a variable changed it"); } ms = { 2, v }; break; }
        case 2: { int v = choose(2); auto k = choose(3); MC_TRACE(w, " = elem ", v, " ", k); elem const e(v); elem u(v); if (k == 0) s = e; else if (k == 1) a = e; else { s = u; MC_CHECK(u.get() == v, "source", "assigning from a variable changed it"); } ms = { 3, v }; break; }
        case 3: { auto k = choose(6); MC_TRACE(w, " = other ", k); if (k == 0) s = o; else if (k == 1) a = oa; else if (k == 2) s = static_cast<A const&>(o); else if (k == 3) s = V{ o }; else if (k == 4) s = V{ static_cast<A const&>(o) }; else { V const& co = o; s = co; } ms = mo; break; }
        case 4: { auto k = choose(4); MC_TRACE(w, " self ", k); V& r = s; A& ar = s; if (k == 0) s = r; else if (k == 1) a = ar; else if (k == 2) s = static_cast<A const&>(s); else if (ms.first == 2) s = std::get<nstr>(r); break; }
        case 5: { MC_TRACE(w, " swap"); V t{ std::move(s) }; s = std::move(o); o = std::move(t); std::swap(ms, mo); break; }
        case 6: { MC_TRACE(w, " none"); if (choose(2)) s = neolib::none; else { V e; s = e; } ms = {}; break; }
        }
        check(*hs, m[0], "first"); check(*ho, m[1], "second"); MC_CHECK((*hs == *ho) == (m[0] == m[1]) && (*hs != *ho) == (m[0] != m[1]) && (*hs < *ho) == (m[0] < m[1]) && (*hs <= *ho) == (m[0] <= m[1]) && (*hs > *ho) == (m[0] > m[1]) && (*hs >= *ho) == (m[0] >= m[1]), "compare", ""); mc::validated();
    }
}
//------------------------------------------------------------------------------------------------- plugin_variant
enum class kind { Integer, Text, Counted, Plain };
begin_declare_enum(kind) declare_enum_string(kind, Integer) declare_enum_string(kind, Text) declare_enum_string(kind, Counted) declare_enum_string(kind, Plain) end_declare_enum(kind)
MC_STATESPACE("plugin_variant", 8, 30)
{
    typedef neolib::plugin_variant<kind, int, nstr, elem, std::string> V; typedef V::abstract_type A; mc::holder<V> hs, ho; mv m[2] = {};
    auto check = [&](V& v, mv const& r, const char* who) { A& a = v; A const& ca = v; MC_CHECK(v.empty() == (r.first == 0) && ca.empty() == (r.first == 0) && (ca == neolib::none) == (r.first == 0) && (v == neolib::none) == (r.first == 0), "empty", who);
        bool threw = false; try { MC_CHECK(int(ca.which()) == r.first - 1, "which", who); MC_CHECK(v.which_as_string() == (r.first == 1 ? "Integer" : r.first == 2 ? "Text" : r.first == 3 ? "Counted" : "Plain"), "which", who); } catch (neolib::bad_variant_access const&) { threw = true; } MC_CHECK(threw == (r.first == 0), "which", who);
        if (r.first == 1) MC_CHECK(ca.get<int>() == r.second && a.get<int>() == r.second && std::get<int>(v) == r.second, "value", who);
        if (r.first == 2) MC_CHECK(ca.get<istr>().to_std_string() == text(r.second) && std::get<nstr>(v).to_std_string() == text(r.second), "value", who);
        if (r.first == 3) MC_CHECK(ca.get<elem>().get() == r.second, "value", who);
        if (r.first == 4) MC_CHECK(ca.get<std::string>() == text(r.second), "value", who);
        threw = false; try { (void)ca.get<int>(); } catch (neolib::bad_variant_access const&) { threw = true; } MC_CHECK(threw == (r.first != 1), "get", who);
        int seen = 0; try { neolib::variant_visitors::visit([&](auto&& x) { using X = std::decay_t<decltype(x)>; seen = std::is_same_v<X, int> ? 1 : std::is_base_of_v<istr, X> ? 2 : std::is_same_v<X, elem> ? 3 : 4; }, ca); } catch (neolib::bad_variant_access const&) {} MC_CHECK(seen == r.first, "visit", who);
        auto c = ca.clone(); MC_CHECK(*c == ca && !(*c < ca) && !(ca < *c), "clone", who); };
    for (;;)
    {
        std::uint64_t h = 3; for (auto& r : m) { mc::hash_combine(h, r.first); mc::hash_combine(h, r.second); } mc::checkpoint(h);
        auto w = choose(2); V& s = w ? *ho : *hs; V& o = w ? *hs : *ho; auto& ms = m[w]; auto& mo = m[1 - w]; A& a = s; A& oa = o;
        switch (choose(8))
        {
        case 0: { int v = choose(2); auto k = choose(3); MC_TRACE(w, " = int ", v, " ", k); int const cv = v; int lv = v; if (k == 0) s = cv; else if (k == 1) a = int(v); else a = lv; ms = { 1, v }; break; }
        case 1: { int v = choose(3); auto k = choose(3); MC_TRACE(w, " = string ", v, " ", k); nstr u{ text(v) }; if (k == 0) a = static_cast<istr const&>(u); else if (k == 1) a = static_cast<istr&>(u); else s = V{ u }; MC_CHECK(u.to_std_string() == text(v), "source", "assigning from a variable changed it"); ms = { 2, v }; break; }
        case 2: { int v = choose(2); auto k = choose(4); MC_TRACE(w, " = elem ", v, " ", k); elem const e(v); elem u(v); if (k == 0) s = e; else if (k == 1) a = e; else if (k == 2) a = elem(v); else { a = u; MC_CHECK(u.get() == v, "source", "assigning from a variable changed it"); } ms = { 3, v }; break; }
        case 3: { int v = choose(3); auto k = choose(3); MC_TRACE(w, " = std::string ", v, " ", k); std::string const e = text(v); std::string u = e; if (k == 0) s = e; else if (k == 1) a = std::move(u); else { a = u; MC_CHECK(u == e, "source", "assigning from a variable changed it"); } ms = { 4, v }; break; }
        case 4: { auto k = choose(6); MC_TRACE(w, " = other ", k); if (k == 0) s = o; else if (k == 1) a = oa; else if (k == 2) s = V{ o }; else if (k == 3) s = V{ static_cast<A const&>(o) }; else if (k == 4) a = static_cast<A const&>(o); else { A const& co = o; static_cast<A&>(s) = co; } ms = mo; break; }
        case 5: { auto k = choose(2); MC_TRACE(w, " self ", k); V& r = s; A& ar = s; if (k == 0) s = r; else a = ar; break; }
        case 6: { auto k = choose(3); MC_TRACE(w, " move ", k); if (k == 0) { V t{ std::move(s) }; s = std::move(o); o = std::move(t); std::swap(ms, mo); } else if (k == 1) { a = std::move(oa); ms = mo; mo = {}; } else { s = V{ std::move(oa) }; o.clear(); ms = mo; mo = {}; } break; }
        case 7: { auto k = choose(3); MC_TRACE(w, " none ", k); if (k == 0) s = neolib::none; else if (k == 1) a = neolib::none; else a.clear(); ms = {}; break; }
        }
        check(*hs, m[0], "first"); check(*ho, m[1], "second"); A const& x = *hs; A const& y = *ho; auto key = [&](mv const& q) { return std::pair(q.first, q.first == 2 || q.first == 4 ? text(q.second) : std::to_string(q.second)); };
        MC_CHECK((x == y) == (m[0] == m[1]) && (x < y) == (key(m[0]) < key(m[1])) && (y < x) == (key(m[1]) < key(m[0])) && sign(x <=> y) == three(key(m[0]), key(m[1])), "compare", ""); mc::validated();
    }
}
