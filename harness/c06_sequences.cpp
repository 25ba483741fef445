// @props C06
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// vector, list and deque through their concrete and their abstract interfaces, for plain elements and for elements whose
// abstract type differs (strings): every operation sequence as a state space, against std::vector.
#include "seqcheck.hpp"
#include <neolib/core/vector.hpp>
#include <neolib/core/list.hpp>
#include <neolib/core/deque.hpp>
#include <neolib/core/string.hpp>
#include <list>
#include <deque>
using mc::choose; using mc::elem; using namespace seqcheck;
namespace
{
    // element values are small ids; strings alternate between short and heap allocated ones
    std::string text(int v) { return v == 0 ? std::string{} : (v & 1 ? "a string too long for the small buffer #" : "#") + std::to_string(v); }
    template <typename E> struct kit;
    template <> struct kit<elem> { typedef elem abstract; static elem make(int v) { return elem(v); } static int id(elem const& e) { return e.get(); } };
    template <> struct kit<neolib::string> { typedef neolib::i_string abstract; static neolib::string make(int v) { return neolib::string{ text(v) }; }
        static int id(neolib::i_string const& s) { auto t = s.to_std_string(); auto h = t.find('#'); return h == std::string::npos ? (t.empty() ? 0 : -1) : std::atoi(t.c_str() + h + 1); } };
    template <typename E, typename V> void check_one(V const& v, std::vector<int> const& m, const char* who)
    {
        MC_CHECK(v.size() == m.size() && v.empty() == m.empty(), "size", who, ": ", v.size(), " expected ", m.size());
        std::vector<int> f, r; for (auto i = v.begin(); i != v.end(); ++i) { MC_CHECK(f.size() <= m.size(), "iteration", who); f.push_back(kit<E>::id(*i)); } MC_CHECK(f == m, "content", who, ": ", mc::show(f), " expected ", mc::show(m));
        f.clear(); for (auto i = v.cend(); i != v.cbegin();) { --i; MC_CHECK(r.size() <= m.size(), "iteration", who); r.push_back(kit<E>::id(*i)); } MC_CHECK(r == std::vector<int>(m.rbegin(), m.rend()), "reverse", who);
        r.clear(); for (auto i = v.rbegin(); i != v.rend(); ++i) r.push_back(kit<E>::id(*i)); MC_CHECK(r == std::vector<int>(m.rbegin(), m.rend()), "reverse", who);
        if (!m.empty()) { MC_CHECK(kit<E>::id(v.front()) == m.front() && kit<E>::id(v.back()) == m.back(), "ends", who); MC_CHECK(kit<E>::id(*v.begin().operator->()) == m.front(), "iterator", who); }
        if (!m.empty()) { auto j = v.begin(); auto o = j++; MC_CHECK(kit<E>::id(*o) == m.front() && o == v.begin() && o != j, "iterator", who, ": post-increment"); if (m.size() > 1) MC_CHECK(kit<E>::id(*j) == m[1], "iterator", who, ": post-increment"); auto k = j--; MC_CHECK(j == o && !(k == j), "iterator", who, ": post-decrement"); auto q = j; ++q; MC_CHECK(j == o && q == k, "iterator", who, ": copies move on their own"); }
        if constexpr (requires { v[0]; }) { for (std::size_t i = 0; i < m.size(); ++i) { MC_CHECK(kit<E>::id(v[i]) == m[i] && kit<E>::id(v.at(i)) == m[i], "index", who, i); MC_CHECK(kit<E>::id(*(v.begin() + i)) == m[i] && kit<E>::id(*(v.end() - (m.size() - i))) == m[i] && kit<E>::id(v.begin()[i]) == m[i], "iterator", who, i); }
            bool threw = false; try { (void)v.at(m.size()); } catch (std::out_of_range const&) { threw = true; } MC_CHECK(threw, "at", who);
            MC_CHECK(v.end() - v.begin() == std::ptrdiff_t(m.size()), "iterator", who); if (m.size() > 1) MC_CHECK(v.begin() < v.end() && v.end() > v.begin() && v.begin() <= v.begin() && v.begin() >= v.begin(), "iterator", who); }
    }
    template <typename E, typename V> void check(V& v, std::vector<int> const& m, const char* who)
    {
        using A = typename V::abstract_type; A& a = v; A const& ca = v; V const& cv = v;
        check_one<E>(cv, m, who); check_one<E>(ca, m, who); check_one<E>(v, m, who); check_one<E>(a, m, who);
    }
}
template <typename V, typename E>
static void explore(std::size_t maxSize, bool ids)
{
    using A = typename V::abstract_type; using K = kit<E>;
    int nextId = 1; auto id = [&] { return nextId++; }; std::vector<int> m; mc::holder<V> v;
    for (;;)
    {
        std::uint64_t h = 7; if (ids) h = mc::heap_hash({ v.r() }); else { mc::hash_combine(h, v->size()); mc::hash_combine(h, v->capacity()); for (int x : m) mc::hash_combine(h, x == 0 ? 0 : 1 + (x & 1)); } mc::checkpoint(h);
        A& a = *v; auto const n = std::uint32_t(m.size()); auto const room = maxSize - n;
        auto at = [&](auto const& it, auto const& c, std::size_t want, const char* who) { std::size_t p = 0; auto i = c.begin(); for (; !(i == it); ++i, ++p) MC_CHECK(p <= m.size(), "returned", who); MC_CHECK(p == want, "returned", who, " position ", p, " expected ", want); };
        auto nth = [&](auto& c, std::size_t p) { auto i = c.begin(); while (p--) ++i; return i; };
        switch (choose(12))
        {
        case 0: { if (!room) throw mc::prune{}; int x = id(); auto e = K::make(x); if (choose(2)) { MC_TRACE("push_back"); v->push_back(e); } else { MC_TRACE("abstract push_back"); typename K::abstract const& ae = e; a.push_back(ae); } m.push_back(x); break; }
        case 1: { if (!n) throw mc::prune{}; MC_TRACE("pop_back"); a.pop_back(); m.pop_back(); break; }
        case 2: { if (!room) throw mc::prune{}; auto p = choose(n + 1); int x = id(); auto e = K::make(x); m.insert(m.begin() + p, x); if (choose(2)) { MC_TRACE("insert ", p); auto r = v->insert(nth(*v, p), e); MC_CHECK(K::id(*r) == x, "returned", "insert"); at(r, *v, p, "insert"); } else { MC_TRACE("abstract insert ", p); auto r = a.insert(nth(a, p), e); MC_CHECK(K::id(*r) == x, "returned", "insert"); at(r, a, p, "insert"); } break; }
        case 3: { if (!n) throw mc::prune{}; auto p = choose(n); m.erase(m.begin() + p); if (choose(2)) { MC_TRACE("erase ", p); auto r = v->erase(nth(*v, p)); at(r, *v, p, "erase"); } else { MC_TRACE("abstract erase ", p); auto r = a.erase(nth(a, p)); at(r, a, p, "erase"); } break; }
        case 4: { auto f = choose(n + 1), l = f + choose(n - f + 1); m.erase(m.begin() + f, m.begin() + l); MC_TRACE("erase ", f, "..", l); if (choose(2)) { auto r = v->erase(nth(*v, f), nth(*v, l)); at(r, *v, f, "erase"); } else { auto r = a.erase(nth(a, f), nth(a, l)); at(r, a, f, "erase"); } break; }
        case 5: { auto k = choose(maxSize + 1); MC_TRACE("resize ", k); if (choose(2)) { a.resize(k); m.resize(k, 0); } else { int x = id(); auto e = K::make(x); a.resize(k, e); m.resize(k, x); } break; }
        case 6: { if (choose(2)) { MC_TRACE("clear"); a.clear(); m.clear(); } else { MC_TRACE("reserve"); a.reserve(maxSize); MC_CHECK(a.capacity() >= a.size(), "capacity", ""); } break; }
        case 7: { if (!n || !room) throw mc::prune{}; auto p = choose(n + 1), s = choose(n); MC_TRACE("insert own ", s, " at ", p); int x = m[s]; auto src = nth(*v, s); A const& ca = a; auto r = a.insert(nth(a, p), *src); (void)ca; m.insert(m.begin() + p, x); at(r, a, p, "insert(own)"); break; }
        case 8: { if (!n || !room) throw mc::prune{}; auto s = choose(n); MC_TRACE("push_back own ", s); int x = m[s]; auto src = nth(*v, s); a.push_back(*src); m.push_back(x); break; }
        case 9: if constexpr (requires { a.push_front(a.front()); }) { auto w = choose(3); if (w == 0) { if (!room) throw mc::prune{}; int x = id(); auto e = K::make(x); MC_TRACE("push_front"); a.push_front(e); m.insert(m.begin(), x); } else if (w == 1) { if (!n) throw mc::prune{}; MC_TRACE("pop_front"); a.pop_front(); m.erase(m.begin()); } else { if (!n || !room) throw mc::prune{}; MC_TRACE("push_front own back"); int x = m.back(); a.push_front(a.back()); m.insert(m.begin(), x); } break; } else throw mc::prune{};
        case 10: { if (!n) throw mc::prune{}; auto p = choose(n); int x = id(); auto e = K::make(x); MC_TRACE("assign element ", p); if (choose(2)) *nth(*v, p) = e; else *nth(a, p) = e; m[p] = x; break; }
        case 11: { auto w = choose(9); MC_TRACE("copying ", w); V o; std::vector<int> om; if (w > 2) { int k = choose(3); for (int i = 0; i < k; ++i) { int x = id(); o.push_back(K::make(x)); om.push_back(x); } } A& oa = o;
            switch (w) {
                case 0: { V c{ *v }; check<E>(c, m, "copy"); MC_CHECK(c == *v, "equality", "copy"); c.clear(); break; }
                case 1: { V c{ std::move(*v) }; check<E>(c, m, "moved-to"); v->clear(); m.clear(); break; }
                case 2: { if constexpr (std::is_constructible_v<V, A const&>) { V c{ static_cast<A const&>(a) }; check<E>(c, m, "abstract copy"); } break; }
                case 3: o = *v; om = m; break;
                case 4: *v = o; m = om; break;
                case 5: if constexpr (std::is_assignable_v<V&, A const&>) { *v = static_cast<A const&>(oa); } else v->assign(oa); m = om; break;
                case 6: oa.assign(a); om = m; break;
                case 7: *v = std::move(o); m = om; o.clear(); om.clear(); break;
                case 8: { V& r = *v; *v = r; a.assign(*v); break; }
            }
            check<E>(o, om, "other"); MC_CHECK((o == *v) == (om == m) && (oa == a) == (om == m), "equality", "");
            if constexpr (std::is_same_v<E, elem>) MC_CHECK(((*v) < o) == (m < om) && (*v > o) == (m > om), "order", "");
            break; }
        }
        check<E>(*v, m, "v");
        std::vector<int> s; if constexpr (requires { v->as_std_vector(); }) for (auto& e : v->to_std_vector()) s.push_back(K::id(e)); else if constexpr (requires { v->as_std_list(); }) for (auto& e : v->to_std_list()) s.push_back(K::id(e)); else for (auto& e : v->to_std_deque()) s.push_back(K::id(e));
        MC_CHECK(s == m, "std", ""); V fromRange; if constexpr (std::is_constructible_v<V, typename V::std_type::iterator, typename V::std_type::iterator>) { typename V::std_type src; for (int x : m) src.push_back(K::make(x)); V c(src.begin(), src.end()); check<E>(c, m, "range"); MC_CHECK(c == *v, "equality", "range"); }
        mc::validated();
    }
}
MC_STATESPACE("vector/elem", 6, 30) { explore<neolib::vector<elem>, elem>(mc::tier(4, 6), true); }
MC_STATESPACE("vector/string", 5, 30) { explore<neolib::vector<neolib::string>, neolib::string>(mc::tier(3, 5), false); }
MC_STATESPACE("list/elem", 6, 30) { explore<neolib::list<elem>, elem>(mc::tier(4, 6), true); }
MC_STATESPACE("list/string", 5, 30) { explore<neolib::list<neolib::string>, neolib::string>(mc::tier(3, 5), false); }
MC_STATESPACE("deque/elem", 6, 30) { explore<neolib::deque<elem>, elem>(mc::tier(4, 6), true); }
MC_STATESPACE("deque/string", 5, 30) { explore<neolib::deque<neolib::string>, neolib::string>(mc::tier(3, 5), false); }
