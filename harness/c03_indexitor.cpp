// @props C03
// indexitor: every operation sequence as a state space (object graph incl. tree shape and foreign lengths, element
// values abstracted); reference model: vector of (value, length, skip before, skip after) with prefix sums.
#include "mc.hpp"
#include <neolib/core/indexitor.hpp>
using mc::choose; using mc::elem;

struct item { int v; int len; int s1, s2; int total() const { return s1 + len + s2; } };
typedef std::vector<item> model;
struct alphabet { std::vector<int> lens; std::vector<std::pair<int, int>> skips; };

template <typename V>
static void check(V& v, model const& m, const char* who)
{
    V const& c = v; int n = int(m.size()), total = 0; std::vector<int> start;
    for (auto& e : m) { start.push_back(total); total += e.total(); }
    MC_CHECK(int(v.size()) == n && v.empty() == (n == 0), "size", who, " size ", v.size(), " expected ", n);
    { int i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) { MC_CHECK(i < n, "iteration", who); MC_CHECK(it->first.get() == m[i].v && it->second == m[i].len, "content", who, "[", i, "]"); } MC_CHECK(i == n, "iteration", who); }
    { int i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) { MC_CHECK(i < n && it->first.get() == m[i].v, "content", who); } }
    { int i = n; for (auto it = v.rbegin(); it != v.rend(); ++it) { MC_CHECK(--i >= 0 && it->first.get() == m[i].v, "reverse", who); } MC_CHECK(i == 0, "reverse", who); }
    if (n) MC_CHECK(v.front().first.get() == m[0].v && c.back().first.get() == m[n - 1].v && c.front().first.get() == m[0].v && v.back().first.get() == m[n - 1].v, "ends", who);
    auto step = v.begin(); auto cstep = c.begin();
    for (int i = 0; i <= n; ++i)
    {
        auto it = v.begin() + i; auto ci = c.begin() + i; auto fe = v.end() - (n - i);
        MC_CHECK(it == step && it == fe && ci == cstep && it - v.begin() == i && v.end() - it == n - i && ci - c.begin() == i, "iterator", who, " ", i);
        MC_CHECK(int(v.index(it)) == i && int(c.index(ci)) == i && int(c.index(fe)) == i && int(c.index(cstep)) == i, "index", who, " index(", i, ") = ", v.index(it));
        int fi = i < n ? start[i] + m[i].s1 : total;
        MC_CHECK(v.foreign_index(it) == fi && c.foreign_index(cstep) == fi && c.foreign_index(ci) == fi, "foreign-index", who, " foreign_index(", i, ") = ", v.foreign_index(it), " expected ", fi);
        MC_CHECK(v.skip_before(it) == (i < n ? m[i].s1 : 0) && c.skip_after(ci) == (i < n ? m[i].s2 : 0), "skip", who, " ", i);
        if (i < n) { MC_CHECK(v[i].first.get() == m[i].v && c[i].first.get() == m[i].v && it->first.get() == m[i].v && ci->second == m[i].len && fe->first.get() == m[i].v, "deref", who, i); ++step; ++cstep; }
        for (int j = 0; j <= n; ++j) { auto jt = it + (j - i); MC_CHECK(jt == v.begin() + j && jt - it == j - i && (it < jt) == (i < j) && (it == jt) == (i == j), "iterator", who, i, j); if (j < n) MC_CHECK(jt->first.get() == m[j].v, "iterator", who); }
    }
    for (int x = -1; x <= total + 1; ++x)
    {
        int at = n, fi = total;
        for (int i = 0; i < n; ++i) if (x >= start[i] + m[i].s1 && x < start[i] + m[i].s1 + m[i].len) { at = i; fi = start[i] + m[i].s1; }
        auto r = v.find_by_foreign_index(x); auto cr = c.find_by_foreign_index(x);
        MC_CHECK(int(v.index(r.first)) == at && r.second == fi && (r.first == v.end()) == (at == n), "find", who, " foreign ", x, " found ", v.index(r.first), "@", r.second, " expected ", at, "@", fi);
        MC_CHECK(int(c.index(cr.first)) == at && cr.second == fi && cr.first - c.begin() == at, "find", who, " const foreign ", x, " found ", c.index(cr.first), "@", cr.second, " expected ", at, "@", fi);
    }
}
static void explore(alphabet al, std::size_t maxSize, bool full)
{
    using V = neolib::indexitor<elem, int>; using value = V::value_type; using skip = V::skip_type;
    int nextId = 1; auto id = [&] { return nextId++; };
    model m; mc::holder<V> a;
    auto pick = [&] { auto l = al.lens[choose(al.lens.size())]; auto s = al.skips[choose(al.skips.size())]; return item{ id(), l, s.first, s.second }; };
    auto val = [](item const& e) { return value{ elem(e.v), e.len }; };
    auto sk = [](item const& e) { return skip{ e.s1, e.s2 }; };
    for (;;)
    {
        mc::checkpoint(mc::heap_hash({ a.r() }));
        auto n = std::uint32_t(m.size()); auto room = std::uint32_t(maxSize - n);
        auto it = [&](std::uint32_t p) { V const& c = *a; return c.begin() + p; };
        auto ret = [&](V::iterator i, std::uint32_t p, const char* who) { MC_CHECK(i - a->begin() == p && (p == m.size() ? i == a->end() : i->first.get() == m[p].v) && a->index(i) == p, "returned-position", who, " returned ", i - a->begin(), " expected ", p); };
        switch (choose(full ? 8 : 3))
        {
        case 0: { if (!room) throw mc::prune{}; auto p = choose(n + 1); auto e = pick(); MC_TRACE("insert at ", p, " length ", e.len, " skip ", e.s1, ",", e.s2); auto r = a->insert(it(p), val(e), sk(e)); m.insert(m.begin() + p, e); ret(r, p, "insert"); break; }
        case 1: { auto f = choose(n + 1); auto l = f + choose(n - f + 1); MC_TRACE("erase ", f, "..", l); auto r = a->erase(it(f), it(l)); m.erase(m.begin() + f, m.begin() + l); ret(r, f, "erase(range)"); break; }
        case 2: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE("erase ", p); auto r = a->erase(it(p)); m.erase(m.begin() + p); ret(r, p, "erase"); break; }
        case 3: { if (!n) throw mc::prune{}; auto p = choose(n); auto e = pick(); e.v = m[p].v; MC_TRACE("update_foreign_index ", p, " length ", e.len, " skip ", e.s1, ",", e.s2); a->update_foreign_index(it(p), e.len, sk(e)); m[p] = e; break; }
        case 4: { auto p = choose(n + 1); auto k = choose(std::min(room, 2u) + 1); auto e = pick(); MC_TRACE("insert at ", p, " count ", k, " length ", e.len); auto r = a->insert(it(p), std::size_t(k), val(e), sk(e)); m.insert(m.begin() + p, k, e); ret(r, p, "insert(n)"); break; }
        case 5: { if (!room) throw mc::prune{}; auto p = choose(n + 1); auto k = choose(std::min(room, 2u) + 1); std::vector<value> s; std::vector<skip> ss; model sm; for (std::uint32_t i = 0; i < k; ++i) { auto e = pick(); sm.push_back(e); s.push_back(val(e)); ss.push_back(sk(e)); } bool noSkips = choose(2); MC_TRACE("insert at ", p, " range of ", k, noSkips ? " without skips" : " with skips");
            V::iterator r; if (noSkips) { r = a->insert(it(p), s.begin(), s.end()); for (auto& e : sm) e.s1 = e.s2 = 0; } else r = a->insert(it(p), s.begin(), s.end(), ss.begin(), ss.end()); m.insert(m.begin() + p, sm.begin(), sm.end()); ret(r, p, "insert(range)"); break; }
        case 6: switch (choose(6)) { case 0: MC_TRACE("clear"); a->clear(); m.clear(); break; case 1: if (!n) throw mc::prune{}; MC_TRACE("pop_front"); a->pop_front(); m.erase(m.begin()); break; case 2: if (!n) throw mc::prune{}; MC_TRACE("pop_back"); a->pop_back(); m.pop_back(); break;
            case 3: { if (!room) throw mc::prune{}; auto e = pick(); MC_TRACE("push_front"); a->push_front(val(e), sk(e)); m.insert(m.begin(), e); break; } case 4: { if (!room) throw mc::prune{}; auto e = pick(); MC_TRACE("push_back"); a->push_back(val(e), sk(e)); m.push_back(e); break; }
            case 5: { auto k = choose(maxSize + 1); auto e = pick(); MC_TRACE("resize ", k); a->resize(k, val(e), sk(e)); m.resize(k, e); break; } } break;
        case 7: { V c; model cm; auto fill = [&](int k) { for (int i = 0; i < k; ++i) { item e{ id(), 1 + i, i % 2, 0 }; c.push_back(val(e), sk(e)); cm.push_back(e); } }; switch (choose(3)) { case 0: break; case 1: fill(1); break; case 2: fill(3); break; }
            switch (choose(5)) { case 0: MC_TRACE("swap"); a->swap(c); m.swap(cm); break; case 1: MC_TRACE("a = c"); *a = c; m = cm; break; case 2: MC_TRACE("c = a"); c = *a; cm = m; break; case 3: MC_TRACE("a = a"); { V& r = *a; *a = r; } break; case 4: MC_TRACE("copy"); { V d(*a); check(d, m, "copy"); if (n) { d.front().first = elem(id()); MC_CHECK(a->front().first.get() == m[0].v, "aliasing", ""); } V e(a->begin(), a->end()); model em = m; for (auto& x : em) x.s1 = x.s2 = 0; check(e, em, "range-construct"); } break; }
            check(c, cm, "c"); if (m.size() > maxSize) throw mc::prune{}; break; }
        }
        check(*a, m, "a");
        mc::validated();
    }
}
MC_STATESPACE("shapes", 40, 60) { explore({ { 1 }, { { 0, 0 } } }, mc::tier(8, 10), false); }
MC_STATESPACE("lengths", 40, 60) { explore({ { 0, 1, 3 }, { { 0, 0 } } }, mc::tier(4, 5), true); }
MC_STATESPACE("skips", 40, 60) { explore({ { 2 }, { { 0, 0 }, { 1, 0 }, { 1, 2 } } }, mc::tier(4, 5), true); }
MC_STATESPACE("mixed_deep", 40, 60) { explore({ { 1, 2 }, { { 0, 0 } } }, mc::tier(5, 6), false); }
