// @props C04
// tree: every edit sequence as a state space (object graph with element values abstracted); reference model: plain nested vectors.
#include "mc.hpp"
#include <iterator>
#include <algorithm>
#include <neolib/core/tree.hpp>
using mc::choose; using mc::elem;
namespace
{
    struct m_node { int id = 0; bool skip = false; std::vector<m_node> kids; int count() const { int n = 0; for (auto& k : kids) n += 1 + k.count(); return n; } };
    struct where { m_node* parent; std::size_t index; m_node& self() const { return parent->kids[index]; } };
    void list(m_node& n, std::vector<where>& out, bool skipping) { for (std::size_t i = 0; i < n.kids.size(); ++i) { out.push_back({ &n, i }); if (!skipping || !n.kids[i].skip) list(n.kids[i], out, skipping); } }
    std::vector<int> ids(std::vector<where> const& w) { std::vector<int> r; for (auto& x : w) r.push_back(x.self().id); return r; }
    std::vector<int> kid_ids(m_node const& n) { std::vector<int> r; for (auto& k : n.kids) r.push_back(k.id); return r; }
    template <typename I> std::vector<int> walk(I f, I l, std::size_t limit, const char* who) { std::vector<int> r; for (; f != l; ++f) { MC_CHECK(r.size() <= limit, "iteration", who, " runs past the end"); r.push_back((*f).get()); } return r; }
    std::vector<int> rev(std::vector<int> v) { std::reverse(v.begin(), v.end()); return v; }
    #define SAME(a, b, who) do { auto x_ = (a); auto y_ = (b); MC_CHECK(x_ == y_, who, mc::show(x_), " expected ", mc::show(y_)); } while (0)

    template <typename T> void check(T& t, m_node& m)
    {
        T const& c = t; std::vector<where> all, vis; list(m, all, false); list(m, vis, true); auto n = all.size(); auto pre = ids(all), seen = ids(vis);
        MC_CHECK(t.size() == n && t.empty() == (n == 0), "size", t.size(), " expected ", n);
        SAME(walk(t.begin(), t.end(), n, "forward"), pre, "preorder"); SAME(walk(c.begin(), c.end(), n, "forward"), pre, "preorder"); SAME(walk(c.cbegin(), c.cend(), n, "forward"), pre, "preorder");
        SAME(walk(t.rbegin(), t.rend(), n, "reverse"), rev(pre), "reverse"); SAME(walk(c.rbegin(), c.rend(), n, "reverse"), rev(pre), "reverse"); SAME(walk(c.crbegin(), c.crend(), n, "reverse"), rev(pre), "reverse");
        SAME(walk(t.sbegin(), t.send(), n, "siblings"), kid_ids(m), "siblings"); SAME(walk(c.sbegin(), c.send(), n, "siblings"), kid_ids(m), "siblings"); SAME(walk(t.rsbegin(), t.rsend(), n, "siblings"), rev(kid_ids(m)), "siblings"); SAME(walk(c.rsbegin(), c.rsend(), n, "siblings"), rev(kid_ids(m)), "siblings");
        SAME(walk(t.kbegin(), t.kend(), n, "skipping"), seen, "skipping"); SAME(walk(c.kbegin(), c.kend(), n, "skipping"), seen, "skipping"); SAME(walk(t.rkbegin(), t.rkend(), n, "skipping"), rev(seen), "skipping"); SAME(walk(c.rkbegin(), c.rkend(), n, "skipping"), rev(seen), "skipping");
        MC_CHECK(t.ksize() == seen.size(), "ksize", t.ksize(), " expected ", seen.size());
        std::vector<std::size_t> depth; auto i = t.begin(); auto j = c.begin();
        for (std::size_t p = 0; p < n; ++p)
        {
            auto& w = all[p]; auto& self = w.self(); std::size_t d = 0; for (auto* q = w.parent; q != &m; ++d) for (auto& x : all) if (&x.self() == q) { q = x.parent; break; }
            MC_CHECK(i.depth() == d && j.depth() == d, "depth", "node ", p, " at depth ", i.depth(), " expected ", d); MC_CHECK(i.parent_is_root() == (d == 0) && j.parent_is_root() == (d == 0), "parent-is-root", "");
            MC_CHECK(int(i.descendent_count()) == self.count() && int(j.descendent_count()) == self.count(), "descendants", i.descendent_count(), " expected ", self.count()); MC_CHECK(i.children_skipped() == self.skip && j.children_skipped() == self.skip, "skipped", "");
            if (d > 0) MC_CHECK((*i.parent()).get() == w.parent->id && (*i.cparent()).get() == w.parent->id && (*j.parent()).get() == w.parent->id && (*j.cparent()).get() == w.parent->id && i.parent()->get() == w.parent->id, "parent", "of node ", p);
            auto k = kid_ids(self); SAME(walk(i.begin(), i.end(), n, "children"), k, "children"); SAME(walk(i.cbegin(), i.cend(), n, "children"), k, "children"); SAME(walk(j.begin(), j.end(), n, "children"), k, "children"); SAME(walk(i.rbegin(), i.rend(), n, "children"), rev(k), "children"); SAME(walk(i.crbegin(), i.crend(), n, "children"), rev(k), "children"); SAME(walk(j.rbegin(), j.rend(), n, "children"), rev(k), "children");
            typename T::const_iterator ci = i; MC_CHECK(ci == j && !(ci != j), "iterator-const", ""); typename T::sibling_iterator si = i; MC_CHECK((*si).get() == self.id, "iterator-const", "");
            auto a = i; auto b = a++; MC_CHECK(b == i && a == std::next(i), "post-increment", ""); if (p > 0) { auto x = i; auto y = x--; MC_CHECK(y == i && x == std::prev(i) && (*x).get() == pre[p - 1], "post-decrement", ""); } { auto x = j; auto y = x++; MC_CHECK(y == j && x == std::next(j), "post-increment", ""); }
            ++i; ++j;
        }
        MC_CHECK(i == t.end() && j == c.end(), "iteration", "end not reached");
    }
    // from an iterator to both ends
    template <typename T, typename I> void from(T& t, I it, std::size_t pos, std::vector<int> const& pre, const char* who)
    {
        auto x = it; for (std::size_t p = pos; p < pre.size(); ++p, ++x) { MC_CHECK(x != t.end(), "returned", who, ": reached the end at ", p); MC_CHECK((*x).get() == pre[p], "returned", who, " forward at ", p); } MC_CHECK(x == t.end(), "returned", who, ": end not reached");
        x = it; for (std::size_t p = pos; p-- > 0;) { --x; MC_CHECK((*x).get() == pre[p], "returned", who, " backward at ", p); } MC_CHECK(x == t.begin(), "returned", who, ": begin not reached");
    }
    template <std::size_t N, bool Values> void explore(std::size_t maxSize, bool skips, bool copies)
    {
        using T = neolib::tree<elem, N>; int nextId = 1; m_node m; mc::holder<T> t;
        for (;;)
        {
            mc::checkpoint(mc::heap_hash({ t.r() }, Values)); mc::op();
            std::vector<where> all; list(m, all, false); auto n = std::uint32_t(all.size());
            auto at = [&](std::uint32_t p) { T const& c = *t; return std::next(c.begin(), p); };
            auto id = [&] { if (n >= maxSize) throw mc::prune{}; return Values ? int(choose(3)) : nextId++; };
            switch (choose(10))
            {
            case 0: { int v = id(); MC_TRACE("push_back(", v, ")"); t->push_back(v); m.kids.push_back({ v }); break; }
            case 1: { int v = id(); MC_TRACE("push_front(", v, ")"); t->push_front(v); m.kids.insert(m.kids.begin(), { v }); break; }
            case 2: { if (!n) throw mc::prune{}; auto p = choose(n); int v = id(); MC_TRACE("push_back under node ", p); t->push_back(at(p), v); all[p].self().kids.push_back({ v }); break; }
            case 3: { if (!n) throw mc::prune{}; auto p = choose(n); int v = id(); MC_TRACE("push_front under node ", p); t->push_front(at(p), v); auto& k = all[p].self().kids; k.insert(k.begin(), { v }); break; }
            case 4: { auto q = choose(n + 1); m_node& parent = q == n ? m : all[q].self(); auto j = choose(parent.kids.size() + 1); int v = id(); MC_TRACE("insert under ", q == n ? "the root" : mc::str("node ", q), " at ", j);
                T const& c = *t; auto pos = std::next(q == n ? c.sbegin() : at(q).begin(), j); int parentId = parent.id; auto r = t->insert(pos, v); parent.kids.insert(parent.kids.begin() + j, { v }); auto& up = parent; MC_CHECK((*r).get() == v && (q == n ? r.parent_is_root() : (*r.parent()).get() == parentId), "returned", "insert"); MC_CHECK(int(r.descendent_count()) == 0, "returned", "insert");
                auto x = r; for (std::size_t k = j; k < up.kids.size(); ++k, ++x) MC_CHECK((*x).get() == up.kids[k].id, "returned", "insert: siblings after"); x = r; for (std::size_t k = j; k-- > 0;) { --x; MC_CHECK((*x).get() == up.kids[k].id, "returned", "insert: siblings before"); } break; }
            case 5: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE("erase node ", p); auto r = t->erase(at(p)); auto w = all[p]; w.parent->kids.erase(w.parent->kids.begin() + w.index); std::vector<where> left; list(m, left, false); from(*t, r, p, ids(left), "erase"); break; }
            case 6: { MC_TRACE("clear"); t->clear(); m = {}; break; }
            case 7: { if (!n || !skips) throw mc::prune{}; auto p = choose(n); bool on = !all[p].self().skip; MC_TRACE(on ? "skip children of " : "unskip children of ", p); auto i = std::next(t->begin(), p); if (on) { i.skip_children(); i.skip_children(); } else { i.unskip_children(); i.unskip_children(); } all[p].self().skip = on; break; }
            case 8: { if (!Values) throw mc::prune{}; auto how = choose(2); MC_TRACE("sort ", how); std::function<void(m_node&)> s = [&](m_node& x) { std::stable_sort(x.kids.begin(), x.kids.end(), [&](m_node const& a, m_node const& b) { return how ? a.id > b.id : a.id < b.id; }); for (auto& k : x.kids) s(k); };
                // equal elements may come in any order: only trees with distinct values among siblings are sorted
                for (auto& w : all) for (auto& k : w.parent->kids) if (&k != &w.self() && k.id == w.self().id) throw mc::prune{}; if (how) t->sort([](elem const& a, elem const& b) { return a > b; }); else t->sort(); s(m); break; }
            case 9: { if (!copies) throw mc::prune{}; auto how = choose(5); MC_TRACE("copy ", how); switch (how)
                { case 0: { T u{ *t }; check(u, m); u.push_back(99); u.clear(); break; } case 1: { T u; u.push_back(5); u = *t; check(u, m); if (!u.empty()) u.erase(u.cbegin()); break; } case 2: { T u{ *t }; t->clear(); *t = u; u.clear(); break; } case 3: { T u{ std::move(*t) }; check(u, m); *t = std::move(u); break; } case 4: { T& self = *t; self = *t; break; } } break; }
            }
            check(*t, m); mc::validated();
        }
    }
}
MC_STATESPACE("segments2", 40, 40) { explore<2, false>(mc::tier(4, 5), false, true); }
MC_STATESPACE("segments1", 40, 40) { explore<1, false>(mc::tier(4, 5), false, false); }
MC_STATESPACE("segments8", 40, 40) { explore<8, false>(mc::tier(4, 5), false, false); }
MC_STATESPACE("skipping", 40, 40) { explore<2, false>(mc::tier(3, 4), true, true); }
MC_STATESPACE("sorting", 40, 40) { explore<2, true>(mc::tier(3, 4), false, false); }
