// @props C01
// Every operation sequence on a gap_vector (two of them for copies/moves/swaps), explored as a state space: states are
// the complete object graph (pointers canonicalised, element values abstracted), reference model std::vector<int>.
#include "mc.hpp"
#include <neolib/core/gap_vector.hpp>
#include <list>
using mc::choose; using mc::elem;

template <typename V>
static void same(V const& v, std::vector<int> const& m, const char* who)
{
    MC_CHECK(v.size() == m.size(), "size", who, ": size ", v.size(), " expected ", m.size());
    MC_CHECK(v.empty() == m.empty(), "empty", who);
    std::vector<int> got; got.reserve(16);
    for (auto i = v.begin(); i != v.end(); ++i) { got.push_back(i->get()); MC_CHECK(got.size() <= m.size() + 1, "iteration", who, ": forward iteration runs past the end"); }
    MC_CHECK(got == m, "content", who, ": ", mc::show(got), " expected ", mc::show(m));
    for (std::size_t i = 0; i < m.size(); ++i)
    {
        MC_CHECK(v[i].get() == m[i], "index", who, " [", i, "]");
        MC_CHECK(v.at(i).get() == m[i], "at", who, " at ", i);
    }
    bool thrown = false; try { (void)v.at(m.size()); } catch (std::out_of_range const&) { thrown = true; }
    MC_CHECK(thrown, "at-range", who, ": at(size()) does not throw");
    if (!m.empty()) { MC_CHECK(v.front().get() == m.front() && v.back().get() == m.back(), "ends", who); }
    got.clear(); for (auto i = v.rbegin(); i != v.rend(); ++i) { got.push_back(i->get()); MC_CHECK(got.size() <= m.size() + 1, "iteration", who, ": reverse iteration runs past the end"); }
    MC_CHECK(got == std::vector<int>(m.rbegin(), m.rend()), "reverse", who, ": ", mc::show(got), " expected reverse of ", mc::show(m));
}
template <typename V>
static void arithmetic(V& v, std::vector<int> const& m)
{
    auto const n = std::ptrdiff_t(m.size());
    V const& cv = v;
    for (std::ptrdiff_t i = 0; i <= n; ++i)
    {
        auto it = v.begin() + i; typename V::const_iterator cit = cv.begin(); cit += i;
        auto fromEnd = v.end() - (n - i);
        MC_CHECK(it == fromEnd, "iterator-identity", "begin()+", i, " and end()-", n - i, " differ, size ", n);
        MC_CHECK(cit == it, "iterator-const", "const iterator at ", i);
        MC_CHECK(it - v.begin() == i && v.end() - it == n - i, "iterator-distance", "position ", i, " of ", n, ": ", it - v.begin(), ",", v.end() - it);
        MC_CHECK((it == v.end()) == (i == n), "iterator-end", i);
        if (i < n) { MC_CHECK(it->get() == m[i] && (*it).get() == m[i] && v.begin()[i].get() == m[i], "iterator-deref", "begin()+", i); }
        for (std::ptrdiff_t j = 0; j <= n; ++j)
        {
            auto jt = it + (j - i); auto kt = it; kt -= (i - j);
            MC_CHECK(jt == v.begin() + j, "iterator-plus", i, " + ", j - i);
            MC_CHECK(kt == jt, "iterator-minus", i, " - ", i - j);
            MC_CHECK(jt - it == j - i, "iterator-difference", j, " - ", i, " = ", jt - it);
            MC_CHECK((it < jt) == (i < j) && (it == jt) == (i == j) && (it > jt) == (i > j), "iterator-order", i, " ", j);
        }
        if (i < n) { auto a = it; auto b = a++; MC_CHECK(b == it && a == v.begin() + (i + 1), "iterator-increment", i); }
        if (i > 0) { auto a = it; auto b = a--; MC_CHECK(b == it && a == v.begin() + (i - 1), "iterator-decrement", i); }
    }
}
template <std::size_t Gap, std::size_t Near>
static void explore(std::size_t maxSize, std::size_t maxN)
{
    using V = neolib::gap_vector<elem, Gap, Near>;
    int nextId = 1; auto id = [&] { return nextId++; };
    std::vector<int> m;
    mc::holder<V> a;
    auto check = [&] { same(*a, m, "a"); V const& c = *a; same(c, m, "const a"); arithmetic(*a, m); };
    auto pos_of = [&](typename V::iterator i) { return i - a->begin(); };
    for (;;)
    {
        mc::checkpoint(mc::heap_hash({ a.r() }));
        auto const n = std::uint32_t(m.size()); auto const room = std::uint32_t(maxSize - n);
        switch (choose(17))
        {
        case 0: { if (!room) throw mc::prune{}; int v = id(); elem e(v); switch (choose(3)) { case 0: MC_TRACE("push_back"); a->push_back(e); break; case 1: MC_TRACE("push_back&&"); a->push_back(elem(v)); break; case 2: MC_TRACE("emplace_back"); a->emplace_back(v); break; } m.push_back(v); break; }
        case 1: { if (!room) throw mc::prune{}; auto p = choose(n + 1); auto how = choose(3); int v = id(); elem e(v); MC_TRACE("insert ", how, " at ", p);
            auto r = how == 0 ? a->insert(a->cbegin() + p, e) : how == 1 ? a->insert(a->cbegin() + p, elem(v)) : a->emplace(a->cbegin() + p, v);
            m.insert(m.begin() + p, v); MC_CHECK(pos_of(r) == p && r->get() == v, "insert-result", "insert returned position ", pos_of(r), " expected ", p); break; }
        case 2: { auto p = choose(n + 1); auto k = choose(std::min<std::uint32_t>(room, maxN) + 1); int v = id(); MC_TRACE("insert at ", p, " count ", k);
            auto r = a->insert(a->cbegin() + p, std::size_t(k), elem(v)); m.insert(m.begin() + p, k, v); MC_CHECK(pos_of(r) == p, "insert-result", "insert(n) returned ", pos_of(r), " expected ", p); break; }
        case 3: { auto p = choose(n + 1); auto k = choose(std::min<std::uint32_t>(room, maxN) + 1); std::list<elem> src; std::vector<int> s; for (std::uint32_t i = 0; i < k; ++i) { s.push_back(id()); src.emplace_back(s.back()); } MC_TRACE("insert at ", p, " range of ", k);
            auto r = a->insert(a->cbegin() + p, src.begin(), src.end()); m.insert(m.begin() + p, s.begin(), s.end()); MC_CHECK(pos_of(r) == p, "insert-result", "insert(range) returned ", pos_of(r), " expected ", p); break; }
        case 4: { auto p = choose(n + 1); auto k = choose(std::min<std::uint32_t>(room, 3) + 1); int x = id(), y = id(), z = id(); MC_TRACE("insert at ", p, " initializer list of ", k);
            auto r = k == 0 ? a->insert(a->cbegin() + p, std::initializer_list<elem>{}) : k == 1 ? a->insert(a->cbegin() + p, { elem(x) }) : k == 2 ? a->insert(a->cbegin() + p, { elem(x), elem(y) }) : a->insert(a->cbegin() + p, { elem(x), elem(y), elem(z) });
            int vs[] = { x, y, z }; m.insert(m.begin() + p, vs, vs + k); MC_CHECK(pos_of(r) == p, "insert-result", "insert(list) returned ", pos_of(r), " expected ", p); break; }
        case 5: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE("erase ", p); auto r = a->erase(a->cbegin() + p); m.erase(m.begin() + p); MC_CHECK(pos_of(r) == p, "erase-result", "erase returned ", pos_of(r), " expected ", p); break; }
        case 6: { auto f = choose(n + 1); auto l = f + choose(n - f + 1); MC_TRACE("erase ", f, "..", l); auto r = a->erase(a->cbegin() + f, a->cbegin() + l); m.erase(m.begin() + f, m.begin() + l); MC_CHECK(pos_of(r) == f, "erase-result", "erase(range) returned ", pos_of(r), " expected ", f); break; }
        case 7: { if (!n) throw mc::prune{}; MC_TRACE("pop_back"); a->pop_back(); m.pop_back(); break; }
        case 8: { auto k = choose(std::uint32_t(maxSize) + 1); if (choose(2)) { MC_TRACE("resize ", k); a->resize(k); m.resize(k); } else { int v = id(); MC_TRACE("resize ", k, " value"); a->resize(k, elem(v)); m.resize(k, v); } break; }
        case 9: { auto k = choose(4); int v = id(); switch (choose(4)) { 
                case 0: MC_TRACE("assign n ", k); a->assign(std::size_t(k), elem(v)); m.assign(k, v); break; 
                case 1: { MC_TRACE("assign range ", k); std::list<elem> s; std::vector<int> ms; for (std::uint32_t i = 0; i < k; ++i) { ms.push_back(id()); s.emplace_back(ms.back()); } a->assign(s.begin(), s.end()); m = ms; break; }
                case 2: if (k) throw mc::prune{}; MC_TRACE("= {x,y}"); { int w = id(); *a = { elem(v), elem(w) }; m = { v, w }; } break;
                case 3: if (k) throw mc::prune{}; MC_TRACE("assign {x,y,z}"); { int w = id(), x = id(); a->assign({ elem(v), elem(w), elem(x) }); m = { v, w, x }; } break; } break; }
        case 10: MC_TRACE("clear"); a->clear(); m.clear(); break;
        case 11: switch (choose(4)) { case 0: { auto c = choose(3); MC_TRACE("reserve size+", c); a->reserve(n + c); MC_CHECK(a->capacity() >= n + c, "reserve", "capacity ", a->capacity()); break; } case 1: MC_TRACE("shrink_to_fit"); a->shrink_to_fit(); break; case 2: MC_TRACE("unsplit"); a->unsplit(); break;
                case 3: { MC_TRACE("data"); V& v = *a; auto d = v.data(); for (std::uint32_t i = 0; i < n; ++i) MC_CHECK(d[i].get() == m[i], "data", "data()[", i, "]"); break; } } break;
        case 12: { // a second vector: empty, without gap, with a gap, with spare capacity and no gap
            V c; std::vector<int> mc_;
            auto fill = [&](int k) { for (int i = 0; i < k; ++i) { int v = id(); c.push_back(elem(v)); mc_.push_back(v); } };
            switch (choose(4)) { case 0: break; case 1: fill(2); c.unsplit(); break; case 2: { fill(3); int v = id(); c.insert(c.cbegin() + 1, elem(v)); mc_.insert(mc_.begin() + 1, v); break; } case 3: c.reserve(4); fill(1); c.unsplit(); break; }
            switch (choose(7)) {
                case 0: MC_TRACE("c = a"); c = *a; mc_ = m; break;
                case 1: MC_TRACE("a = c"); *a = c; m = mc_; break;
                case 2: MC_TRACE("swap"); a->swap(c); m.swap(mc_); break;
                case 3: MC_TRACE("c = move(a)"); c = std::move(*a); mc_ = m; m.clear(); a->clear(); break;
                case 4: MC_TRACE("a = move(c)"); *a = std::move(c); m = mc_; mc_.clear(); c.clear(); break;
                case 5: MC_TRACE("a = a"); { V& r = *a; *a = r; } break;
                case 6: MC_TRACE("compare"); MC_CHECK((c == *a) == (mc_ == m) && (c != *a) == (mc_ != m) && (c < *a) == (mc_ < m), "compare", "c ", mc::show(mc_), " a ", mc::show(m)); break; }
            same(c, mc_, "c"); arithmetic(c, mc_); int v = id(); c.insert(c.cbegin(), elem(v)); mc_.insert(mc_.begin(), v); same(c, mc_, "c");
            break; }
        case 16: { switch (choose(3)) {
                case 0: MC_TRACE("copy construct"); { V c(*a); same(c, m, "copy"); if (n) { c.front() = elem(id()); MC_CHECK((*a)[0].get() == m[0], "aliasing", "copy shares storage"); } MC_CHECK(n != 0 || c == *a, "equality", ""); } break;
                case 1: MC_TRACE("move construct"); { V c(std::move(*a)); same(c, m, "moved-to"); MC_CHECK(a->size() == 0, "moved-from", "moved-from is not empty"); *a = std::move(c); } break;
                case 2: MC_TRACE("construct"); { int v = id(); V c(std::size_t(3), elem(v)); same(c, { v, v, v }, "n-construct"); V d(a->begin(), a->end()); same(d, m, "range-construct"); V e{ elem(v), elem(v + 1) }; same(e, { v, v + 1 }, "list-construct"); V f(std::size_t(2)); same(f, { 0, 0 }, "count-construct"); MC_CHECK(d == *a, "equality", "copy compares unequal"); } break; } break; }
        case 13: { if (!n || !room) throw mc::prune{}; auto p = choose(n + 1); auto s = choose(n); MC_TRACE("insert own element ", s, " at ", p); auto r = a->insert(a->cbegin() + p, (*a)[s]); int v = m[s]; m.insert(m.begin() + p, v); MC_CHECK(pos_of(r) == p, "insert-result", "insert(own) returned ", pos_of(r), " expected ", p); break; }
        case 14: { if (!n) throw mc::prune{}; auto p = choose(n); int v = id(); MC_TRACE("write ", p); switch (choose(3)) { case 0: (*a)[p] = elem(v); break; case 1: *(a->begin() + p) = elem(v); break; case 2: a->at(p) = elem(v); break; } m[p] = v; break; }
        case 15: { if (!n || !room) throw mc::prune{}; auto s = choose(n); if (choose(2)) { MC_TRACE("push_back own element ", s); a->push_back((*a)[s]); m.push_back(m[s]); } else { MC_TRACE("resize with own element ", s); a->resize(n + 1, (*a)[s]); m.push_back(m[s]); } break; }
        }
        check();
        mc::validated();
    }
}
MC_STATESPACE("gap2_near1", 12, 60) { explore<2, 1>(mc::tier(6, 8), 5); }
MC_STATESPACE("gap1_near1", 12, 60) { explore<1, 1>(5, 5); }
MC_STATESPACE("gap3_near1", 12, 60) { explore<3, 1>(mc::tier(6, 9), 5); }
MC_STATESPACE("gap2_near2", 12, 60) { explore<2, 2>(mc::tier(6, 8), 4); }
MC_STATESPACE("gap8_near1", 12, 60) { explore<8, 1>(mc::tier(5, 7), 4); }
