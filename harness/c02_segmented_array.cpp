// @props C02
// Every operation sequence on a segmented_array as a state space (complete object graph incl. tree shape and colours,
// element values abstracted), reference model std::vector<int>.
#include "seqcheck.hpp"
#include <neolib/core/segmented_array.hpp>
#include <list>
#include <sstream>
using mc::choose; using mc::elem; using namespace seqcheck;

namespace mc { inline std::istream& operator>>(std::istream& i, elem& e) { int v; i >> v; e = elem(v); return i; } }

template <std::size_t Seg>
static void explore(std::size_t maxSize, std::size_t maxN, bool full)
{
    using V = neolib::segmented_array<elem, Seg>;
    int nextId = 1; auto id = [&] { return nextId++; };
    std::vector<int> m; mc::holder<V> a;
    auto pos_of = [&](typename V::iterator i) { return i - a->begin(); };
    auto all = [&](V& v, std::vector<int> const& mm, const char* who) { same(v, mm, who); reverse(v, mm, who); indexed(v, mm, who); arithmetic(v, mm, who); };
    for (;;)
    {
        mc::checkpoint(mc::heap_hash({ a.r() }));
        auto const n = std::uint32_t(m.size()); auto const room = std::uint32_t(maxSize - n);
        auto it = [&](std::uint32_t p) { typename V::const_iterator i = a->cbegin() + p; return i; };
        switch (choose(full ? 13 : 4))
        {
        case 0: { if (!room) throw mc::prune{}; auto p = choose(n + 1); auto how = choose(full ? 2 : 1); int v = id(); elem e(v); MC_TRACE("insert ", how, " at ", p);
            auto r = how == 0 ? a->insert(it(p), e) : a->emplace_insert(it(p), v); m.insert(m.begin() + p, v); walk(*a, r, p, m, "insert"); break; }
        case 1: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE("erase ", p); auto r = a->erase(it(p)); m.erase(m.begin() + p); walk(*a, r, p, m, "erase"); break; }
        case 2: { auto p = choose(n + 1); auto k = choose(std::min<std::uint32_t>(room, maxN) + 1); std::list<elem> src; std::vector<int> s; for (std::uint32_t i = 0; i < k; ++i) { s.push_back(id()); src.emplace_back(s.back()); } MC_TRACE("insert at ", p, " range of ", k);
            auto r = a->insert(it(p), src.begin(), src.end()); m.insert(m.begin() + p, s.begin(), s.end()); walk(*a, r, p, m, "insert(range)"); break; }
        case 3: { auto f = choose(n + 1); auto l = f + choose(n - f + 1); MC_TRACE("erase ", f, "..", l); auto r = a->erase(it(f), it(l)); m.erase(m.begin() + f, m.begin() + l); walk(*a, r, f, m, "erase(range)"); break; }
        case 4: { auto p = choose(n + 1); auto k = choose(std::min<std::uint32_t>(room, maxN) + 1); int v = id(); auto how = choose(2); MC_TRACE("insert at ", p, " count ", k);
            auto r = how ? a->insert(it(p), std::size_t(k), elem(v)) : a->emplace_insert(it(p), std::size_t(k), v); m.insert(m.begin() + p, k, v); walk(*a, r, p, m, "insert(n)"); break; }
        case 5: { if (!room) throw mc::prune{}; int v = id(); elem e(v); auto how = choose(4); MC_TRACE("push ", how); switch (how) { case 0: a->push_back(e); m.push_back(v); break; case 1: a->push_front(e); m.insert(m.begin(), v); break; case 2: a->emplace_back(v); m.push_back(v); break; case 3: a->emplace_front(v); m.insert(m.begin(), v); break; } break; }
        case 6: { if (!n) throw mc::prune{}; auto how = choose(2); MC_TRACE("pop ", how); if (how) { a->pop_back(); m.pop_back(); } else { a->pop_front(); m.erase(m.begin()); } break; }
        case 7: { auto k = choose(std::uint32_t(maxSize) + 1); if (choose(2)) { MC_TRACE("resize ", k); a->resize(k); m.resize(k); } else { int v = id(); MC_TRACE("resize ", k, " value"); a->resize(k, elem(v)); m.resize(k, v); } break; }
        case 8: MC_TRACE("clear"); a->clear(); m.clear(); break;
        case 9: { if (!n || !room) throw mc::prune{}; auto p = choose(n + 1); auto s = choose(n); MC_TRACE("insert own element ", s, " at ", p); int v = m[s]; auto r = a->insert(it(p), (*a)[s]); m.insert(m.begin() + p, v); walk(*a, r, p, m, "insert(own)"); break; }
        case 10: { if (!n) throw mc::prune{}; auto p = choose(n); int v = id(); MC_TRACE("write/iter ", p); switch (choose(2)) { case 0: (*a)[p] = elem(v); break; case 1: *(a->begin() + p) = elem(v); break; } m[p] = v;
            { auto i = a->iter((*a)[p]); MC_CHECK(i - a->begin() == p, "iter", "iter() found ", i - a->begin(), " expected ", p); V const& c = *a; auto j = c.citer(c[p]); MC_CHECK(j - c.begin() == p, "iter", "citer() found ", j - c.begin(), " expected ", p); elem other(v); MC_CHECK(a->iter(other) == a->end(), "iter", "iter() of a foreign element"); } break; }
        case 11: { V c; std::vector<int> mc_; auto fill = [&](int k) { for (int i = 0; i < k; ++i) { int v = id(); c.push_back(elem(v)); mc_.push_back(v); } };
            switch (choose(3)) { case 0: break; case 1: fill(1); break; case 2: fill(int(Seg) + 2); break; }
            switch (choose(7)) {
                case 0: MC_TRACE("c = a"); c = *a; mc_ = m; break;
                case 1: MC_TRACE("a = c"); *a = c; m = mc_; break;
                case 2: MC_TRACE("swap"); a->swap(c); m.swap(mc_); break;
                case 3: MC_TRACE("c = move(a); a = {}"); c = std::move(*a); mc_ = m; *a = V{}; m.clear(); break;
                case 4: MC_TRACE("a = move(c)"); *a = std::move(c); m = mc_; mc_.clear(); c.clear(); break;
                case 5: MC_TRACE("a = a"); { V& r = *a; *a = r; } break;
                case 6: MC_TRACE("compare"); MC_CHECK((c == *a) == (mc_ == m) && (c != *a) == (mc_ != m), "compare", "c ", mc::show(mc_), " a ", mc::show(m)); break; }
            all(c, mc_, "c"); if (m.size() > maxSize) throw mc::prune{};
            break; }
        case 12: switch (choose(4)) {
                case 0: MC_TRACE("copy construct"); { V c(*a); all(c, m, "copy"); if (n) { c.front() = elem(id()); MC_CHECK((*a)[0].get() == m[0], "aliasing", "copy shares storage"); } else MC_CHECK(c == *a, "equality", ""); } break;
                case 1: MC_TRACE("move construct"); { V c(std::move(*a)); same(c, m, "moved-to"); *a = std::move(c); } break;
                case 2: MC_TRACE("construct"); { int v = id(); V c(std::size_t(3), elem(v)); all(c, { v, v, v }, "n-construct"); V d(a->begin(), a->end()); all(d, m, "range-construct"); MC_CHECK(d == *a && !(d != *a), "equality", "copy compares unequal"); MC_CHECK((d == c) == (m == std::vector<int>{ v, v, v }), "equality", ""); } break;
                case 3: { auto p = choose(n + 1); auto k = choose(std::min<std::uint32_t>(room, 3) + 1); std::ostringstream o; std::vector<int> s; for (std::uint32_t i = 0; i < k; ++i) { s.push_back(id()); o << s.back() << ' '; } MC_TRACE("insert at ", p, " input range of ", k); std::istringstream is(o.str());
                    auto r = a->insert(it(p), std::istream_iterator<elem>(is), std::istream_iterator<elem>()); m.insert(m.begin() + p, s.begin(), s.end()); walk(*a, r, p, m, "insert(input range)"); break; }
            } break;
        }
        all(*a, m, "a");
        mc::validated();
    }
}
MC_STATESPACE("seg2", 40, 60) { explore<2>(mc::tier(6, 8), 4, true); }
MC_STATESPACE("seg3", 40, 60) { explore<3>(mc::tier(7, 9), 4, true); }
MC_STATESPACE("seg1", 40, 60) { explore<1>(mc::tier(9, 12), 3, false); }
MC_STATESPACE("seg4", 40, 60) { explore<4>(mc::tier(8, 12), 5, false); }
MC_STATESPACE("seg2_deep", 40, 60) { explore<2>(mc::tier(8, 11), 5, false); }
