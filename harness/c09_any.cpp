// @props C09
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// Type-erased values (any), references (any_ref, any_const_ref) and enumerations by value and name, against std::any,
// plain pointers and a table: every operation sequence as a state space.
#include <any>
#include <map>
#include <string>
#include <sstream>
#include <optional>
#include <iomanip>
#include "mc.hpp"
#include <neolib/core/any.hpp>
#include <neolib/core/any_ref.hpp>
#include <neolib/core/enum.hpp>
#include <neolib/core/zip_iterator.hpp>
#include <vector>
#include <deque>
#include <algorithm>
using mc::choose; using mc::elem; typedef std::string S;
namespace
{
    struct boom {}; struct bomb { static inline bool armed = false; int v; bomb(int v) : v{ v } { if (armed) throw boom{}; } bomb(bomb const& o) : v{ o.v } { if (armed) throw boom{}; } };
    typedef neolib::variant<int, neolib::string> var; typedef std::vector<int> vec;
    template <typename A> S what(A const& a, bool any = true)
    {
        using neolib::any_cast; using std::any_cast; if (!a.has_value()) return "-"; auto const& t = a.type();
        if (t == typeid(int)) return "i" + std::to_string(any_cast<int>(a)); if (t == typeid(S)) return "s" + any_cast<S>(a); if (t == typeid(elem)) return "e" + std::to_string(any_cast<elem const&>(a).get()); if (t == typeid(vec)) { S r = "v"; for (int i : any_cast<vec const&>(a)) r += std::to_string(i); return r; } if (t == typeid(bomb)) return "b" + std::to_string(any_cast<bomb const&>(a).v);
        return "?";
    }
    template <typename T, typename A> bool holds(A const& a) { return a.has_value() && a.type() == typeid(T); }
    template <typename T> void cast(neolib::any& a, std::any& m)
    {
        neolib::i_any& i = a; neolib::i_any const& ci = a; neolib::any const& ca = a; bool const has = holds<T>(m); T* const p = neolib::any_cast<T>(&a); MC_CHECK((p != nullptr) == has && neolib::any_cast<T>(&ca) == p && neolib::any_cast<T>(&i) == p && neolib::any_cast<T>(&ci) == p, "pointer", typeid(T).name());
        int threw = 0; try { (void)neolib::any_cast<T&>(a); } catch (std::bad_any_cast const&) { ++threw; } try { (void)neolib::any_cast<T const&>(ca); } catch (std::bad_any_cast const&) { ++threw; } try { (void)neolib::any_cast<T&>(i); } catch (std::bad_any_cast const&) { ++threw; } try { (void)neolib::any_cast<T const&>(ci); } catch (std::bad_any_cast const&) { ++threw; } MC_CHECK(threw == (has ? 0 : 4), "cast", typeid(T).name(), threw);
        if (has) { MC_CHECK(&neolib::any_cast<T&>(a) == p && &neolib::any_cast<T const&>(ca) == p && &neolib::any_cast<T&>(i) == p, "cast", typeid(T).name()); MC_CHECK(&neolib::unsafe_any_cast<T&>(a) == p && &neolib::unsafe_any_cast<T const&>(ca) == p && &neolib::unsafe_any_cast<T&>(i) == p && &neolib::unsafe_any_cast<T const&>(ci) == p, "unsafe cast", typeid(T).name()); }
    }
    void same(neolib::any& a, std::any& m, const char* who)
    {
        neolib::i_any const& i = a; MC_CHECK(a.has_value() == m.has_value() && i.has_value() == m.has_value() && a.type() == m.type() && i.type() == m.type(), "type", who, ": ", a.type().name(), " expected ", m.type().name()); MC_CHECK(what(a) == what(m) && what(i) == what(m), "value", who, ": ", what(a), " expected ", what(m));
        cast<int>(a, m); cast<S>(a, m); cast<elem>(a, m); cast<vec>(a, m); cast<bomb>(a, m);
    }
}
MC_STATESPACE("any", 6, 12)
{
    long const before = elem::live; bomb::armed = false;
    {
        mc::holder<neolib::any> x, y; mc::holder<std::any> mx, my;
        auto step = [&]
        {
            bool const sw = choose(2); neolib::any& a = sw ? *y : *x; neolib::any& b = sw ? *x : *y; std::any& m = sw ? *my : *mx; std::any& n = sw ? *mx : *my; neolib::i_any& ia = a; neolib::i_any& ib = b; neolib::any const& cb = b; neolib::i_any const& cib = b;
            auto const o = choose(22); MC_TRACE(sw ? "y" : "x", " op ", o);
            switch (o)
            {
            case 0: { int i = int(choose(2)); a = i; m = i; break; }
            case 1: { S s = choose(2) ? "" : "a text longer than the small buffer holds"; a = s; m = s; break; }
            case 2: { elem e{ int(choose(2)) + 1 }; a = e; m = e; break; }
            case 3: a = S{ "r" }; m = S{ "r" }; break;
            case 4: a = cb; m = n; break;
            case 5: a = b; m = n; break;
            case 6: a = std::move(b); m = std::move(n); break;
            case 7: a = ib; m = n; break;
            case 8: a = cib; m = n; break;
            case 9: a = std::move(ib); m = std::move(n); break;
            case 10: a.reset(); m.reset(); break;
            case 11: ia.reset(); m.reset(); break;
            case 12: if (choose(2)) a.swap(b); else swap(a, b); m.swap(n); break;
            case 13: { auto& r = a.emplace<vec>(2, 7); MC_CHECK(&r == neolib::any_cast<vec>(&a), "emplace", ""); m.emplace<vec>(2, 7); break; }
            case 14: { auto& r = a.emplace<vec>({ 1, 2 }); MC_CHECK(&r == neolib::any_cast<vec>(&a), "emplace", ""); m.emplace<vec>({ 1, 2 }); break; }
            case 15: { auto& r = a.emplace<elem>(3); MC_CHECK(&r == neolib::any_cast<elem>(&a), "emplace", ""); m.emplace<elem>(3); break; }
            case 16: a = a; m = m; break;
            case 17: a = cb; { neolib::any c{ cb }; neolib::any d{ b }; neolib::any e{ ib }; neolib::any f{ cib }; neolib::any g{ std::move(c) }; std::any const r{ n }; for (auto p : { &d, &e, &f, &g }) MC_CHECK(what(*p) == what(r), "copy", what(*p), " expected ", what(r)); MC_CHECK(!c.has_value() && c.type() == typeid(void), "moved", ""); neolib::i_any& ig = g; neolib::any h{ std::move(ig) }; MC_CHECK(what(h) == what(r) && !g.has_value(), "moved", ""); a = std::move(h); } m = n; break;
            case 18: { bomb v{ 5 }; a = v; m = v; break; }
            case 19: bomb::armed = true; try { a.emplace<bomb>(6); } catch (boom const&) {} try { m.emplace<bomb>(6); } catch (boom const&) {} bomb::armed = false; break;
            case 20: if (holds<bomb>(n)) { bomb::armed = true; bool threw = false; try { a = cb; } catch (boom const&) { threw = true; } bomb::armed = false; MC_CHECK(threw, "throws", ""); } else throw mc::prune{}; break;
            case 21: if (auto p = neolib::any_cast<elem>(&a)) { *p = elem{ 4 }; std::any_cast<elem&>(m) = elem{ 4 }; } else if (auto p = neolib::any_cast<int>(&ia)) { *p = 9; std::any_cast<int&>(m) = 9; } else throw mc::prune{}; break;
            }
        };
        for (;;) { step(); mc::op(); same(*x, *mx, "x"); same(*y, *my, "y"); MC_CHECK(elem::live == before + 2 * (holds<elem>(*mx) + holds<elem>(*my)), "balance", elem::live - before); std::uint64_t h = 1; mc::hash_combine(h, what(*mx)); mc::hash_combine(h, what(*my)); mc::hash_combine(h, mc::heap_hash({ x.r(), y.r() })); mc::checkpoint(h); }
    }
}
MC_SCENARIO("any of a variant")
{
    var v; bool const s = choose(2); if (s) v = neolib::string{ "abc" }; else v = 5; neolib::any a{ v }; MC_CHECK(a.type() == typeid(var), "type", a.type().name()); auto const& r = neolib::any_cast<var const&>(a); MC_CHECK(r == v, "value", ""); neolib::any b; b = v; MC_CHECK(neolib::any_cast<var const&>(b) == v, "value", ""); neolib::any c{ a }; MC_CHECK(c.type() == typeid(var) && neolib::any_cast<var const&>(c) == v && &neolib::any_cast<var const&>(c) != &r, "copy", ""); mc::validated();
}
//------------------------------------------------------------------------------------------------- references
MC_STATESPACE("references", 6, 10)
{
    int i[2] = { 1, 2 }; S s[2] = { "a", "b" }; neolib::any_ref r[2]; neolib::any_const_ref c[2]; int mr[2] = { -1, -1 }, mcr[2] = { -1, -1 };
    auto check = [&](auto& x, int m, auto const& tag)
    {
        typedef std::decay_t<decltype(tag)> bad; MC_CHECK(x.empty() == (m < 0) && x.something() == (m >= 0) && x.template is<int>() == (m == 0 || m == 1) && x.template is<S>() == (m == 2 || m == 3) && !x.template is<double>(), "is", m);
        int threw = 0; int const* p = nullptr; S const* q = nullptr; constexpr bool mut = std::is_same_v<std::decay_t<decltype(x)>, neolib::any_ref>; typedef std::conditional_t<mut, int&, int const&> I; typedef std::conditional_t<mut, S&, S const&> T; try { I v = x; p = &v; } catch (bad const&) { ++threw; } try { T v = x; q = &v; } catch (bad const&) { ++threw; } MC_CHECK(threw == (m < 0 ? 2 : 1) && p == (m == 0 || m == 1 ? &i[m] : nullptr) && q == (m > 1 ? &s[m - 2] : nullptr), "reference", m);
    };
    for (;;)
    {
        int const k = int(choose(2)); auto const o = choose(13); MC_TRACE(k, " op ", o);
        switch (o)
        {
        case 0: case 1: r[k] = neolib::any_ref{ i[o] }; mr[k] = o; break;
        case 2: case 3: r[k] = neolib::any_ref{ s[o - 2] }; mr[k] = o; break;
        case 4: r[k] = r[1 - k]; mr[k] = mr[1 - k]; break;
        case 5: r[k].reset(); mr[k] = -1; break;
        case 6: { auto& z = r[k]; r[k] = z; break; }
        case 7: c[k] = neolib::any_const_ref{ r[k] }; mcr[k] = mr[k]; break;
        case 8: { neolib::any_ref const& z = r[1 - k]; c[k] = neolib::any_const_ref{ z }; mcr[k] = mr[1 - k]; break; }
        case 9: c[k] = c[1 - k]; mcr[k] = mcr[1 - k]; break;
        case 10: if (choose(2)) { int const& z = i[1]; c[k] = neolib::any_const_ref{ z }; mcr[k] = 1; } else { c[k] = neolib::any_const_ref{ s[0] }; mcr[k] = 2; } break;
        case 11: c[k].reset(); mcr[k] = -1; { auto& z = c[1 - k]; c[1 - k] = z; } break;
        case 12: { neolib::any_ref a{ r[k] }; neolib::any_ref const& z = r[k]; neolib::any_ref b{ z }; neolib::any_const_ref e{ c[k] }; neolib::any_const_ref const& y = c[k]; neolib::any_const_ref f{ y }; check(a, mr[k], neolib::any_ref_bad_cast{}); check(b, mr[k], neolib::any_ref_bad_cast{}); check(e, mcr[k], neolib::any_const_ref_bad_cast{}); check(f, mcr[k], neolib::any_const_ref_bad_cast{}); break; }
        }
        mc::op(); for (int j = 0; j < 2; ++j) { check(r[j], mr[j], neolib::any_ref_bad_cast{}); check(c[j], mcr[j], neolib::any_const_ref_bad_cast{}); }
        std::uint64_t h = 7; for (int j = 0; j < 2; ++j) { mc::hash_combine(h, mr[j]); mc::hash_combine(h, mcr[j]); } mc::checkpoint(h);
    }
}
//------------------------------------------------------------------------------------------------- enumerations
namespace neolib { enum class tiny : std::uint8_t { None, One, Two = 200 }; enum class deep : std::int64_t { Low = -5, Zero = 0, High = 0x100000000ll }; }
begin_declare_enum(neolib::tiny) declare_enum_string(neolib::tiny, None) declare_enum_string(neolib::tiny, One) declare_enum_string_explicit(neolib::tiny, Two, two hundred) end_declare_enum(neolib::tiny)
begin_declare_enum(neolib::deep) declare_enum_string(neolib::deep, Low) declare_enum_string(neolib::deep, Zero) declare_enum_string(neolib::deep, High) end_declare_enum(neolib::deep)
namespace
{
    template <typename E> struct table; template <> struct table<neolib::tiny> { static std::map<std::uint8_t, S> get() { return { { 0, "None" }, { 1, "One" }, { 200, "two hundred" } }; } static std::vector<long long> values() { return { 0, 1, 2, 9, 16, 127, 128, 200, 255 }; } };
    template <> struct table<neolib::deep> { static std::map<std::int64_t, S> get() { return { { -5, "Low" }, { 0, "Zero" }, { 0x100000000ll, "High" } }; } static std::vector<long long> values() { return { -5, 0, 0x100000000ll, 1, -1, 255 }; } };
    template <typename E> void enums()
    {
        typedef std::underlying_type_t<E> U; auto const t = table<E>::get(); auto const vs = table<E>::values(); U const v = U(vs[choose(std::uint32_t(vs.size()))]), w = U(vs[choose(std::uint32_t(vs.size()))]); E const e = E(v);
        auto name = [&](U u) { auto i = t.find(u); if (i != t.end()) return i->second; std::ostringstream o; o << "0x" << std::uppercase << std::hex << std::setfill('0') << std::setw(sizeof(E) * 2) << (sizeof(U) == 8 ? (unsigned long long)u : (unsigned long long)(std::make_unsigned_t<U>)u) << "u"; return o.str(); };
        MC_CHECK(neolib::enum_to_string(e).to_std_string() == name(v), "name", neolib::enum_to_string(e).to_std_string(), " expected ", name(v)); { std::ostringstream o; using neolib::operator<<; o << e; MC_CHECK(o.str() == name(v), "stream", o.str()); } bool threw = false; try { neolib::enum_to_string(e, true); } catch (neolib::bad_enum_value const&) { threw = true; } MC_CHECK(threw == !t.count(v), "must enumerate", v);
        if (t.count(v)) { MC_CHECK(neolib::string_to_enum<E>(name(v)) == e && neolib::try_string_to_enum<E>(name(v)) == std::optional<E>{ e } && neolib::string_to_enum<E>(neolib::string{ name(v) }) == e, "by name", name(v)); if (name(v).find(' ') == S::npos) { std::istringstream in(name(v) + " x"); E f = E(77); using neolib::operator>>; in >> f; MC_CHECK(f == e, "stream", name(v)); } }
        for (S bad : { S(""), S("none"), name(v) + "x", name(v).substr(1), S("0x01u") }) { threw = false; try { neolib::string_to_enum<E>(bad); } catch (neolib::bad_enum_string const&) { threw = true; } bool known = false; for (auto& x : t) known = known || x.second == bad; MC_CHECK(threw == !known && neolib::try_string_to_enum<E>(bad).has_value() == known, "unknown name", bad); }
        neolib::basic_enum<E> a{ e }, b{ E(w) }; typedef neolib::i_enum_t<E> I; I& ia = a; I const& ib = b; MC_CHECK(a.value() == v && *a.data() == v && ia.template value<E>() == e && a.to_std_string() == name(v) && ia.to_string().to_std_string() == name(v), "value", a.to_std_string(), " expected ", name(v)); MC_CHECK(neolib::basic_enum<E>{}.value() == U{}, "default", "");
        MC_CHECK((a == b) == (v == w) && ((ia <=> ib) == (v <=> w)) && (ia < ib) == (v < w), "compare", v, " ", w); MC_CHECK((ia == E(w)) == (v == w) && (E(w) != ia) == (v != w) && (ia < E(w)) == (v < w) && (E(w) < ia) == (w < v), "compare", v, " ", w);
        MC_CHECK(ia.enumerators().size() == t.size(), "enumerators", ""); auto k = t.begin(); for (auto const& x : ia.enumerators()) { MC_CHECK(x.first() == k->first && x.second().to_std_string() == k->second, "enumerators", k->second); ++k; }
        { auto c = ib.clone(); MC_CHECK(c->value() == w && c.ptr() != &ib, "clone", w); c->set_value(v); MC_CHECK(b.value() == w, "clone", w); } neolib::basic_enum<E> d{ ib }; MC_CHECK(d.value() == w, "copy", w); ia = ib; MC_CHECK(a.value() == w, "assign", w); ia.set_value(v); MC_CHECK(a.value() == v, "set", v); ia.template set_value<E>(E(w)); MC_CHECK(a.value() == w, "set", w); *ia.data() = v; MC_CHECK(a.value() == v, "data", v);
        for (auto& x : t) { MC_CHECK(ia.set_value(static_cast<neolib::i_string const&>(neolib::string{ x.second })) == x.first && a.value() == x.first, "set by name", x.second); } threw = false; try { ia.set_value(static_cast<neolib::i_string const&>(neolib::string{ "nothing" })); } catch (typename neolib::basic_enum<E>::bad_enum_string const&) { threw = true; } MC_CHECK(threw && a.value() == t.rbegin()->first, "set by name", ""); mc::op(); mc::validated();
    }
}
MC_SCENARIO("enum u8") { enums<neolib::tiny>(); }
MC_SCENARIO("enum i64") { enums<neolib::deep>(); }
//------------------------------------------------------------------------------------------------- zipped iteration
MC_SCENARIO("zip")
{   // iterators moved together, elements seen and changed together
    int const n = int(choose(5)); std::vector<int> a; std::deque<S> b; for (int i = 0; i < n; ++i) { a.push_back(int(choose(3))); b.push_back("v" + std::to_string(i)); } auto const ma = a; auto const mb = b;
    typedef std::vector<int>::iterator A; typedef std::deque<S>::iterator B; typedef neolib::zip_iterator<A, B> Z; Z const first{ a.begin(), b.begin() }, last{ a.end(), b.end() }; MC_CHECK(last - first == n && (first == last) == (n == 0) && (first != last) == (n != 0) && (first < last) == (n > 0), "distance", n);
    int k = 0; for (Z z = first; z != last; ++z, ++k) { auto r = *z; MC_CHECK(&std::get<0>(r) == &a[k] && &std::get<1>(r) == &b[k], "forward", k); MC_CHECK(z - first == k && z == first + k && z == last - (n - k), "position", k); } MC_CHECK(k == n, "forward", k); for (Z z = last; k > 0;) { Z y = z--; --k; MC_CHECK(y - z == 1 && &std::get<0>(*z) == &a[k] && &std::get<1>(*z) == &b[k], "backward", k); Z w = z++; MC_CHECK(w - first == k && z == y, "backward", k); --z; }
    if (n >= 2) { std::iter_swap(first + 0, last - 1); MC_CHECK(a[0] == ma[n - 1] && a[n - 1] == ma[0] && b[0] == mb[n - 1] && b[n - 1] == mb[0], "swap", ""); std::iter_swap(first + 0, last - 1); MC_CHECK(a == ma && b == mb, "swap", ""); for (int i = 0; i < n; ++i) { Z z = first + i; *z = std::make_tuple(10 + i, S(1, char('a' + i))); MC_CHECK(a[i] == 10 + i && b[i] == S(1, char('a' + i)), "assign", i); } }
    mc::op(); mc::validated();
}
