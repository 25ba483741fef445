// @props C03
// tag_array: every operation sequence as a state space (object graph incl. tree shape and tags, element values
// abstracted); reference model: vector of (value, tag).
#include "seqcheck.hpp"
#include <neolib/core/tag_array.hpp>
#include <list>
using mc::choose; using mc::elem; using namespace seqcheck;

template <typename T> struct the_tag
{
    template <typename U> struct rebind { using type = the_tag<U>; };
    int id;
    the_tag(int i) : id(i) {}
    the_tag(T&, the_tag const& o) : id(o.id) {}
    the_tag(the_tag const&) = default;
    auto operator<=>(the_tag const& o) const { return id <=> o.id; }
    bool operator==(the_tag const& o) const { return id == o.id; }
};
typedef std::vector<std::pair<int, int>> model;
static std::vector<int> vals(model const& m) { std::vector<int> r; for (auto& e : m) r.push_back(e.first); return r; }

template <std::size_t Seg>
static void explore(std::size_t maxSize, std::size_t maxN, int nTags, bool full)
{
    using V = neolib::tag_array<the_tag<int>, elem, Seg, Seg>; using tag = typename V::tag_type;
    int nextId = 1; auto id = [&] { return nextId++; };
    model m; mc::holder<V> a;
    auto all = [&](V& v, model const& mm, const char* who) { auto x = vals(mm); same(v, x, who); reverse(v, x, who); indexed(v, x, who); arithmetic(v, x, who);
        for (std::size_t i = 0; i < mm.size(); ++i) { MC_CHECK(v.tag(v.begin() + i).id == mm[i].second, "tag", who, "[", i, "] has tag ", v.tag(v.begin() + i).id, " expected ", mm[i].second); V const& c = v; auto it = c.begin(); for (std::size_t j = 0; j < i; ++j) ++it; MC_CHECK(c.tag(it).id == mm[i].second, "tag", who); } };
    for (;;)
    {
        mc::checkpoint(mc::heap_hash({ a.r() }));
        auto const n = std::uint32_t(m.size()); auto const room = std::uint32_t(maxSize - n);
        auto it = [&](std::uint32_t p) { V const& c = *a; return c.begin() + p; };
        auto some = [&](int k, int t) { model s; for (int i = 0; i < k; ++i) s.emplace_back(id(), t); return s; };
        switch (choose(full ? 9 : 3))
        {
        case 0: { auto p = choose(n + 1); auto k = choose(std::min<std::uint32_t>(room, maxN) + 1); int t = choose(nTags); auto s = some(k, t); std::list<elem> src; for (auto& e : s) src.emplace_back(e.first); MC_TRACE("insert tag ", t, " at ", p, " range of ", k);
            auto r = a->insert(tag(t), it(p), src.begin(), src.end()); m.insert(m.begin() + p, s.begin(), s.end()); walk(*a, r, p, vals(m), "insert(range)"); break; }
        case 1: { auto f = choose(n + 1); auto l = f + choose(n - f + 1); MC_TRACE("erase ", f, "..", l); auto r = a->erase(it(f), it(l)); m.erase(m.begin() + f, m.begin() + l); walk(*a, r, f, vals(m), "erase(range)"); break; }
        case 2: { if (!n) throw mc::prune{}; auto p = choose(n); MC_TRACE("erase ", p); auto r = a->erase(it(p)); m.erase(m.begin() + p); walk(*a, r, p, vals(m), "erase"); break; }
        case 3: { if (!room) throw mc::prune{}; auto p = choose(n + 1); int t = choose(nTags); int v = id(); elem e(v); MC_TRACE("insert tag ", t, " at ", p); auto r = a->insert(tag(t), it(p), e); m.insert(m.begin() + p, { v, t }); walk(*a, r, p, vals(m), "insert"); break; }
        case 4: { auto p = choose(n + 1); auto k = choose(std::min<std::uint32_t>(room, maxN) + 1); int t = choose(nTags); int v = id(); elem e(v); MC_TRACE("insert tag ", t, " at ", p, " count ", k); auto r = a->insert(tag(t), it(p), std::size_t(k), e); m.insert(m.begin() + p, k, { v, t }); walk(*a, r, p, vals(m), "insert(n)"); break; }
        case 5: { if (!room) throw mc::prune{}; int t = choose(nTags); int v = id(); elem e(v); if (choose(2)) { MC_TRACE("push_back tag ", t); a->push_back(tag(t), e); m.push_back({ v, t }); } else { MC_TRACE("push_front tag ", t); a->push_front(tag(t), e); m.insert(m.begin(), { v, t }); } break; }
        case 6: { if (choose(2)) { MC_TRACE("clear"); a->clear(); m.clear(); } else { if (!n) throw mc::prune{}; if (choose(2)) { MC_TRACE("pop_back"); a->pop_back(); m.pop_back(); } else { MC_TRACE("pop_front"); a->pop_front(); m.erase(m.begin()); } } break; }
        case 7: { if (!n || !room) throw mc::prune{}; auto p = choose(n + 1); auto s = choose(n); int t = choose(nTags); int v = m[s].first; MC_TRACE("insert own ", s, " at ", p, " tag ", t); auto r = a->insert(tag(t), it(p), (*a)[s]); m.insert(m.begin() + p, { v, t }); walk(*a, r, p, vals(m), "insert(own)"); break; }
        case 8: { V c; model cm; auto fill = [&](int k, int t) { for (int i = 0; i < k; ++i) { int v = id(); elem e(v); c.push_back(tag(t), e); cm.push_back({ v, t }); } };
            switch (choose(4)) { case 0: break; case 1: fill(1, 1); break; case 2: fill(1, 0); fill(2, 1); break; case 3: fill(int(Seg) + 1, 0); fill(1, 1); break; }
            switch (choose(5)) {
                case 0: MC_TRACE("a.swap(c)"); a->swap(c); m.swap(cm); break;
                case 1: MC_TRACE("a = c"); *a = c; m = cm; break;
                case 2: MC_TRACE("c = a"); c = *a; cm = m; MC_CHECK(c == *a && !(c != *a), "equality", "copy"); break;
                case 3: MC_TRACE("a = a"); { V& r = *a; *a = r; } break;
                case 4: { auto p = choose(n + 1); auto f = choose(cm.size() + 1); MC_TRACE("insert at ", p, " tagged range from ", f); V const& cc = c; auto r = a->insert(it(p), cc.begin() + f, cc.end()); m.insert(m.begin() + p, cm.begin() + f, cm.end()); walk(*a, r, p, vals(m), "insert(tagged range)"); break; }
            }
            MC_CHECK((c == *a) == (vals(cm) == vals(m)), "equality", "");
            all(c, cm, "c"); if (m.size() > maxSize) throw mc::prune{}; break; }
        }
        all(*a, m, "a");
        mc::validated();
    }
}
MC_STATESPACE("tags2_seg2", 40, 60) { explore<2>(mc::tier(5, 7), 3, 2, true); }
MC_STATESPACE("tags2_seg3", 40, 60) { explore<3>(mc::tier(5, 8), 4, 2, true); }
MC_STATESPACE("tags3_seg2", 40, 60) { explore<2>(mc::tier(4, 6), 4, 3, false); }
MC_STATESPACE("tags1_seg4", 40, 60) { explore<4>(mc::tier(8, 10), 4, 1, false); }
MC_STATESPACE("tags2_seg4", 40, 60) { explore<4>(mc::tier(5, 7), 4, 2, false); }
