// @props C06
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// set, multiset, map, multimap, unordered_map and unordered_multimap through their concrete and abstract interfaces,
// against the standard containers they mirror: every operation sequence as a state space.
#include "seqcheck.hpp"
#include <neolib/core/set.hpp>
#include <neolib/core/map.hpp>
#include <neolib/core/unordered_map.hpp>
#include <neolib/core/string.hpp>
#include <set>
#include <map>
#include <unordered_map>
using mc::choose; using mc::elem;
namespace
{
    constexpr int KEYS = 3;
    template <typename E> struct kit;
    template <> struct kit<int> { typedef int abstract; static int make(int v) { return v; } static int id(int e) { return e; } };
    template <> struct kit<elem> { typedef elem abstract; static elem make(int v) { return elem(v); } static int id(elem const& e) { return e.get(); } };
    template <> struct kit<neolib::string> { typedef neolib::i_string abstract; static neolib::string make(int v) { return neolib::string{ (v & 1 ? "a string too long for the small buffer #" : "#") + std::to_string(v) }; }
        static int id(neolib::i_string const& s) { auto t = s.to_std_string(); auto h = t.find('#'); return h == std::string::npos ? (t.empty() ? 0 : -1) : std::atoi(t.c_str() + h + 1); } };
    typedef std::vector<std::pair<int, int>> content;      // in iteration order (sorted for the unordered ones)
    struct by_length { template <typename S> bool operator()(S const& a, S const& b) const { return kit<neolib::string>::id(a) < kit<neolib::string>::id(b); } };
}
//------------------------------------------------------------------------------------------------- sets
template <typename S, typename E, typename Ref>
static void explore_set(bool multi)
{
    using A = typename S::abstract_type; using K = kit<E>; mc::holder<S> s; Ref m;
    auto show = [&](auto const& c) { std::vector<int> r; for (auto i = c.begin(); i != c.end(); ++i) { r.push_back(K::id(*i)); MC_CHECK(r.size() < 20, "iteration", ""); } return r; };
    auto want = [](Ref const& r) { return std::vector<int>(r.begin(), r.end()); };
    auto check = [&](S& c, Ref const& r, const char* who) { A& a = c; A const& ca = c; S const& cc = c; auto w = want(r);
        MC_CHECK(c.size() == r.size() && a.size() == r.size() && a.empty() == r.empty(), "size", who, c.size()); MC_CHECK(show(cc) == w && show(ca) == w && show(c) == w && show(a) == w, "content", who, ": ", mc::show(show(cc)), " expected ", mc::show(w));
        for (int k = 0; k <= KEYS; ++k) { auto key = K::make(k); auto f = ca.find(key); MC_CHECK((f == ca.end()) == (r.count(k) == 0), "find", who, k); if (r.count(k)) MC_CHECK(K::id(*f) == k, "find", who, k); auto g = a.find(key); MC_CHECK((g == a.end()) == (r.count(k) == 0), "find", who, k); if (r.count(k)) MC_CHECK(K::id(*g) == k, "find", who, k); }
        std::vector<int> back; for (auto i = ca.end(); i != ca.begin();) { --i; back.push_back(K::id(*i)); } MC_CHECK(back == std::vector<int>(w.rbegin(), w.rend()), "reverse", who); };
    for (;;)
    {
        std::uint64_t h = 3; for (int x : m) mc::hash_combine(h, x); mc::checkpoint(h);
        A& a = *s; auto const n = std::uint32_t(m.size());
        auto nth = [&](auto& c, std::size_t p) { auto i = c.begin(); while (p--) ++i; return i; };
        auto pos = [&](auto const& it, auto& c) { std::size_t p = 0; for (auto i = c.begin(); !(i == it); ++i, ++p) MC_CHECK(p <= m.size(), "returned", ""); return p; };
        switch (choose(6))
        {
        case 0: { if (n >= std::uint32_t(mc::tier(4, 6))) throw mc::prune{}; int k = choose(KEYS); auto e = K::make(k); typename K::abstract const& ae = e; MC_TRACE("insert ", k); auto r = a.insert(ae); m.insert(k); MC_CHECK(K::id(*r) == k, "returned", "insert"); if (multi) { auto p = pos(r, a); std::size_t lo = 0; for (int x : m) lo += x < k; MC_CHECK(p + 1 == lo + m.count(k), "returned", "insert: position ", p); } break; }
        case 1: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE("erase ", p); auto r = a.erase(nth(a, p)); m.erase(std::next(m.begin(), p)); MC_CHECK(pos(r, a) == p, "returned", "erase"); break; }
        case 2: { auto f = choose(n + 1), l = f + choose(n - f + 1); MC_TRACE("erase ", f, "..", l); auto r = a.erase(nth(a, f), nth(a, l)); m.erase(std::next(m.begin(), f), std::next(m.begin(), l)); MC_CHECK(pos(r, a) == f, "returned", "erase"); break; }
        case 3: { MC_TRACE("clear"); a.clear(); m.clear(); break; }
        case 4: { int k = choose(KEYS); MC_TRACE("find ", k); auto key = K::make(k); auto f = a.find(key); if (m.count(k)) { std::size_t lo = 0; for (int x : m) lo += x < k; auto p = pos(f, a); MC_CHECK(multi ? p >= lo && p < lo + m.count(k) : p == lo, "find", ""); a.erase(f); m.erase(m.find(k)); } break; }
        case 5: { auto w = choose(8); MC_TRACE("copying ", w); S o; Ref om; if (w > 2) { int c = choose(3); for (int i = 0; i < c; ++i) { int k = choose(KEYS); auto e = K::make(k); static_cast<A&>(o).insert(e); om.insert(k); } } A& oa = o;
            switch (w) {
                case 0: { S c{ *s }; check(c, m, "copy"); MC_CHECK(c == *s, "equality", ""); break; }
                case 1: { S c{ std::move(*s) }; check(c, m, "moved-to"); s->clear(); m.clear(); break; }
                case 2: { S c{ static_cast<typename A::abstract_container const&>(a) }; check(c, m, "abstract copy"); break; }
                case 3: o = *s; om = m; break;
                case 4: *s = o; m = om; break;
                case 5: a.assign(oa); m = om; break;
                case 6: *s = std::move(o); m = om; o.clear(); om.clear(); break;
                case 7: { S& r = *s; *s = r; a.assign(a); break; }
            }
            check(o, om, "other"); MC_CHECK((o == *s) == (om == m) && (oa == a) == (om == m), "equality", ""); if constexpr (std::is_same_v<E, int>) MC_CHECK((o < *s) == (om < m) && (o > *s) == (om > m), "order", ""); break; }
        }
        check(*s, m, "s"); std::vector<E> src; for (int x : m) src.push_back(K::make(x)); S c(src.begin(), src.end()); check(c, m, "range"); mc::validated();
    }
}
//------------------------------------------------------------------------------------------------- maps
template <typename M, typename KE, typename VE, typename Ref>
static void explore_map(bool multi, bool ordered)
{
    using A = typename M::abstract_type; using K = kit<KE>; using V = kit<VE>; mc::holder<M> s; Ref m; int nextId = 1;
    auto show = [&](auto const& c) { content r; for (auto i = c.begin(); i != c.end(); ++i) { MC_CHECK(r.size() < 20, "iteration", ""); r.emplace_back(K::id(i->first()), V::id(i->second())); MC_CHECK(K::id((*i).first()) == r.back().first, "iteration", ""); } if (!ordered) std::sort(r.begin(), r.end()); return r; };
    auto want = [&](Ref const& r) { content w; for (auto& e : r) w.emplace_back(e.first, e.second); if (!ordered) std::sort(w.begin(), w.end()); return w; };
    auto str = [](content const& c) { std::string r; for (auto& e : c) r += mc::str("(", e.first, " ", e.second, ")"); return r; };
    auto pos = [&](auto const& it, auto& c) { std::size_t p = 0; for (auto i = c.begin(); !(i == it); ++i, ++p) MC_CHECK(p < 20, "returned", ""); return p; };
    auto check = [&](M& c, Ref const& r, const char* who) { A& a = c; A const& ca = c; M const& cc = c; auto w = want(r);
        MC_CHECK(c.size() == r.size() && a.size() == r.size() && a.empty() == r.empty(), "size", who, c.size()); MC_CHECK(show(cc) == w && show(ca) == w && show(c) == w && show(a) == w, "content", who, ": ", str(show(cc)), " expected ", str(w));
        for (int k = 0; k <= KEYS; ++k) { auto key = K::make(k); auto const n = r.count(k); typename K::abstract const& ak = key;
            auto f = ca.find(ak); MC_CHECK((f == ca.end()) == (n == 0), "find", who, k); if (n) MC_CHECK(K::id(f->first()) == k, "find", who, k); auto g = a.find(ak); MC_CHECK((g == a.end()) == (n == 0), "find", who, k); if (n) MC_CHECK(K::id(g->first()) == k, "find", who, k); auto ff = cc.find(ak); MC_CHECK((ff == cc.end()) == (n == 0), "find", who);
            if constexpr (requires { a.lower_bound(ak); }) { MC_CHECK(pos(a.lower_bound(ak), a) == std::size_t(std::distance(r.begin(), r.lower_bound(k))) && pos(ca.lower_bound(ak), ca) == std::size_t(std::distance(r.begin(), r.lower_bound(k))), "lower_bound", who, k); MC_CHECK(pos(a.upper_bound(ak), a) == std::size_t(std::distance(r.begin(), r.upper_bound(k))) && pos(ca.upper_bound(ak), ca) == std::size_t(std::distance(r.begin(), r.upper_bound(k))), "upper_bound", who, k); }
            if constexpr (requires { a.at(ak); }) { int got = -1; bool threw = false; try { got = V::id(ca.at(ak)); MC_CHECK(V::id(a.at(ak)) == got, "at", who); } catch (std::out_of_range const&) { threw = true; } MC_CHECK(threw == (n == 0), "at", who, k); if (n) MC_CHECK(got == r.find(k)->second, "at", who, k); }
        }
        if (ordered) { content back; for (auto i = ca.end(); i != ca.begin();) { --i; back.emplace_back(K::id(i->first()), V::id(i->second())); } MC_CHECK(back == content(w.rbegin(), w.rend()), "reverse", who); } };
    for (;;)
    {
        std::uint64_t h = 3; std::map<int, int> rank; for (auto& e : show(*s)) { mc::hash_combine(h, e.first); mc::hash_combine(h, rank.emplace(e.second, int(rank.size())).first->second); } if (!ordered) for (auto i = s->begin(); i != s->end(); ++i) mc::hash_combine(h, K::id(i->first())); mc::checkpoint(h);
        A& a = *s; auto const n = std::uint32_t(m.size()); bool const full = n >= std::uint32_t(mc::tier(3, 4));
        auto nth = [&](auto& c, std::size_t p) { auto i = c.begin(); while (p--) ++i; return i; };
        auto gone = [&](auto it) { int k = K::id(it->first()), v = V::id(it->second()); for (auto i = m.begin(); i != m.end(); ++i) if (i->first == k && i->second == v) { m.erase(i); return; } mc::fail("content", "item not expected"); };
        switch (choose(8))
        {
        case 0: { if (full) throw mc::prune{}; int k = choose(KEYS), v = nextId++; auto ke = K::make(k); auto ve = V::make(v); bool had = m.count(k); MC_TRACE("insert ", k, " ", v); auto how = choose(3);
            if (how == 0) { typename K::abstract const& ak = ke; typename V::abstract const& av = ve; auto r = a.insert(ak, av); MC_CHECK(K::id(r->first()) == k && (!multi && had ? V::id(r->second()) == m.find(k)->second : V::id(r->second()) == v), "returned", "insert"); }
            else if (how == 1) { auto r = s->insert(neolib::pair<KE const, VE>{ ke, ve }); MC_CHECK(K::id(r->first()) == k && (!multi && had ? V::id(r->second()) == m.find(k)->second : V::id(r->second()) == v), "returned", "insert pair"); }
            else { auto& r = s->emplace(ke, ve); MC_CHECK(K::id(r.first()) == k && (!multi && had ? V::id(r.second()) == m.find(k)->second : V::id(r.second()) == v), "returned", "emplace"); }
            m.emplace(k, v); break; }
        case 1: if constexpr (requires(typename K::abstract const& k) { a[k]; }) { int k = choose(KEYS); if (full && !m.count(k)) throw mc::prune{}; auto ke = K::make(k); typename K::abstract const& ak = ke; auto w = choose(3); MC_TRACE("operator[] ", k, " ", w);
                if (w == 0) { if (!m.count(k)) { MC_CHECK(V::id(a[ak]) == V::id(VE{}), "default", ""); m.emplace(k, V::id(VE{})); } else MC_CHECK(V::id(a[ak]) == m.find(k)->second, "index", ""); }
                else { int v = nextId++; auto ve = V::make(v); if (w == 1) a[ak] = ve; else (*s)[ak] = ve; m[k] = v; } break; } else throw mc::prune{};
        case 2: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE("erase ", p); gone(nth(a, p)); auto r = a.erase(nth(a, p)); MC_CHECK(pos(r, a) == p, "returned", "erase"); break; }
        case 3: { auto f = choose(n + 1), l = f + choose(n - f + 1); MC_TRACE("erase ", f, "..", l); for (auto i = f; i < l; ++i) gone(nth(a, i)); auto r = a.erase(nth(a, f), nth(a, l)); MC_CHECK(pos(r, a) == f, "returned", "erase range"); break; }
        case 4: { MC_TRACE("clear"); a.clear(); m.clear(); break; }
        case 5: { if (!n) throw mc::prune{}; auto p = choose(n); int v = nextId++; auto ve = V::make(v); MC_TRACE("assign mapped ", p); auto i = nth(a, p); int k = K::id(i->first()), old = V::id(i->second()); i->second() = ve; for (auto& e : m) if (e.first == k && e.second == old) { e.second = v; break; } break; }
        case 6: { if (!n) throw mc::prune{}; int k = choose(KEYS); MC_TRACE("find and erase ", k); auto ke = K::make(k); auto i = a.find(ke); if (i == a.end()) { MC_CHECK(!m.count(k), "find", ""); break; } if (multi && ordered) {} gone(i); a.erase(i); break; }
        case 7: { auto w = choose(8); MC_TRACE("copying ", w); M o; Ref om; if (w > 2) { int c = choose(3); for (int i = 0; i < c; ++i) { int k = choose(KEYS); int v = nextId++; auto ke = K::make(k); auto ve = V::make(v); static_cast<A&>(o).insert(ke, ve); om.emplace(k, v); } } A& oa = o;
            switch (w) {
                case 0: { M c{ *s }; check(c, m, "copy"); MC_CHECK(c == *s, "equality", ""); break; }
                case 1: { M c{ std::move(*s) }; check(c, m, "moved-to"); s->clear(); m.clear(); break; }
                case 2: { M c{ static_cast<A const&>(a) }; check(c, m, "abstract copy"); break; }
                case 3: o = *s; om = m; break;
                case 4: *s = o; m = om; break;
                case 5: a.assign(oa); m = om; break;
                case 6: *s = std::move(o); m = om; o.clear(); om.clear(); break;
                case 7: { M& r = *s; *s = r; a.assign(a); break; }
            }
            check(o, om, "other"); if (ordered) { MC_CHECK((o == *s) == (want(om) == want(m)) && (oa == a) == (want(om) == want(m)), "equality", ""); if constexpr (std::is_same_v<KE, int> && requires { o < *s; }) MC_CHECK((o < *s) == (want(om) < want(m)) && (o > *s) == (want(om) > want(m)), "order", ""); } else MC_CHECK((o == *s) == (want(om) == want(m)), "equality", ""); break; }
        }
        if (multi && ordered) { /* equal keys keep insertion order in the reference as in std::multimap */ }
        check(*s, m, "s"); mc::validated();
    }
}
MC_STATESPACE("set/int", 6, 30) { explore_set<neolib::set<int>, int, std::set<int>>(false); }
MC_STATESPACE("set/string", 5, 30) { explore_set<neolib::set<neolib::string, by_length>, neolib::string, std::set<int>>(false); }
MC_STATESPACE("multiset/int", 6, 30) { explore_set<neolib::multiset<int>, int, std::multiset<int>>(true); }
MC_STATESPACE("map/int-elem", 5, 30) { explore_map<neolib::map<int, elem>, int, elem, std::map<int, int>>(false, true); }
MC_STATESPACE("map/string-string", 4, 30) { explore_map<neolib::map<neolib::string, neolib::string, by_length>, neolib::string, neolib::string, std::map<int, int>>(false, true); }
MC_STATESPACE("multimap/int-elem", 5, 30) { explore_map<neolib::multimap<int, elem>, int, elem, std::multimap<int, int>>(true, true); }
MC_STATESPACE("unordered_map/int-elem", 5, 30) { explore_map<neolib::unordered_map<int, elem>, int, elem, std::map<int, int>>(false, false); }
MC_STATESPACE("unordered_map/string-string", 4, 30) { explore_map<neolib::unordered_map<neolib::string, neolib::string>, neolib::string, neolib::string, std::map<int, int>>(false, false); }
MC_STATESPACE("unordered_multimap/int-elem", 5, 30) { explore_map<neolib::unordered_multimap<int, elem>, int, elem, std::multimap<int, int>>(true, false); }
