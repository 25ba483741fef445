// @props M01
// @src src/core/reference_counted.cpp
// Reference-counting and weak pointers: state-space exploration of every sequence of pointer operations over owners that
// also live inside the objects they own (chains, cycles broken by reset), against a reference count kept per object.
#include <neolib/core/reference_counted.hpp>
#include "mc.hpp"
#include <memory>
using namespace neolib; using mc::choose;

namespace
{
    constexpr int OBJ = 3;
    struct node; struct book { bool alive[OBJ] = {}; node* at[OBJ] = {}; int destroyed[OBJ] = {}, made[OBJ] = {}; } sBook;
    struct i_node : i_reference_counted
    {
        typedef i_node abstract_type; virtual int index() const = 0; virtual ref_ptr<i_node>& next() = 0; virtual long magic() const = 0;
    };
    struct node : reference_counted<i_node>
    {
        int iIndex; ref_ptr<i_node> iNext; long iMagic = 42;
        node(int i) : iIndex(i) { MC_CHECK(!sBook.alive[i], "harness", ""); sBook.alive[i] = true; ++sBook.made[i]; sBook.at[i] = this; }
        ~node() { MC_CHECK(sBook.alive[iIndex], "destroyed-twice", "object ", iIndex); sBook.alive[iIndex] = false; ++sBook.destroyed[iIndex]; iMagic = 0; }
        int index() const override { return iIndex; } ref_ptr<i_node>& next() override { return iNext; } long magic() const override { return iMagic; }
    };
    // reference: who owns what
    struct ref { int to = -1; bool owns = false; };
    struct model
    {
        ref l[3], next[OBJ]; int raw = -1; int weak[2] = { -1, -1 }; int count[OBJ] = {}; bool alive[OBJ] = {}, pinned[OBJ] = {};
        void add(ref r) { if (r.to >= 0 && r.owns) ++count[r.to]; }
        void drop(ref r) { if (r.to >= 0 && r.owns && --count[r.to] == 0 && !pinned[r.to]) kill(r.to); }
        void kill(int o) { alive[o] = false; pinned[o] = false; for (auto& w : weak) if (w == o) w = -1; ref r = next[o]; next[o] = {}; drop(r); for (auto& x : l) if (x.to == o) { MC_CHECK(!x.owns, "harness", ""); } }
        void set(ref& v, ref to) { add(to); ref old = v; v = to; drop(old); }
        // a non-owning reference to a dead object is the caller's problem: such operations are not performed
        bool dangling() const { for (auto& x : l) if (x.to >= 0 && !alive[x.to]) return true; for (int o = 0; o < OBJ; ++o) if (alive[o] && next[o].to >= 0 && !alive[next[o].to]) return true; return false; }
        bool unreachable() const { bool r[OBJ] = {}; bool more = true; auto mark = [&](int o) { if (o >= 0 && !r[o]) { r[o] = true; more = true; } }; for (auto& x : l) mark(x.to); mark(raw); for (int o = 0; o < OBJ; ++o) if (pinned[o]) mark(o); while (more) { more = false; for (int o = 0; o < OBJ; ++o) if (r[o]) mark(next[o].to); } for (int o = 0; o < OBJ; ++o) if (alive[o] && !r[o]) return true; return false; }
    };
    struct world { ref_ptr<i_node> l0, l1; ref_ptr<node> l2; i_node* raw = nullptr; weak_ref_ptr<i_node> w0, w1; };

    void check(world& w, model const& m)
    {
        for (int o = 0; o < OBJ; ++o) MC_CHECK(sBook.alive[o] == m.alive[o], "lifetime", "object ", o, sBook.alive[o] ? " is still alive" : " is destroyed", ", owners ", m.count[o]);
        auto ptr = [&](auto& p, ref const& r, const char* who)
        {
            MC_CHECK(p.valid() == (r.to >= 0) && bool(p) == p.valid() && p.managing() == p.valid() && (p == nullptr) == !p.valid() && (p != nullptr) == p.valid(), "valid", who);
            if (r.to < 0) { MC_CHECK(p.ptr() == nullptr && p.managed_ptr() == nullptr && p.use_count() == 0, "valid", who); bool thrown = false; try { (void)*p; } catch (i_ref_ptr<i_node>::no_object const&) { thrown = true; } catch (typename i_ref_ptr<node>::no_object const&) { thrown = true; } MC_CHECK(thrown, "no-object", who); return; }
            MC_CHECK(p.reference_counted() == r.owns, "owns", who); MC_CHECK(p->index() == r.to && (*p).magic() == 42, "target", who, " points at ", p->index(), " expected ", r.to);
            MC_CHECK(!r.owns || p.use_count() == m.count[r.to], "use-count", who, " ", p.use_count(), " expected ", m.count[r.to]); MC_CHECK(p.unique() == (r.owns ? m.count[r.to] == 1 : true), "unique", who); MC_CHECK(p->use_count() == m.count[r.to], "use-count", who);
        };
        ptr(w.l0, m.l[0], "l0"); ptr(w.l1, m.l[1], "l1"); ptr(w.l2, m.l[2], "l2");
        MC_CHECK((w.l0 == w.l1) == (m.l[0].to == m.l[1].to) && (w.l0 != w.l1) == (m.l[0].to != m.l[1].to), "compare", "");
        auto seen = [&](int o, i_node& n) { ptr(n.next(), m.next[o], "next"); };
        for (int i = 0; i < 3; ++i) if (m.l[i].to >= 0) { i_node* n = i == 0 ? w.l0.ptr() : i == 1 ? w.l1.ptr() : w.l2.ptr(); for (int d = 0; d < OBJ && n; ++d) { seen(n->index(), *n); n = n->next().ptr(); } }
        auto weak = [&](auto& p, int to, const char* who) { MC_CHECK(p.expired() == (to < 0) && p.valid() == (to >= 0) && bool(p) == (to >= 0) && !p.reference_counted(), "weak-expired", who, p.expired() ? " expired" : " not expired"); if (to >= 0) MC_CHECK(p->index() == to && p.ptr()->magic() == 42 && (*p).index() == to, "weak-target", who); else { bool thrown = false; try { (void)*p; } catch (std::logic_error const&) { thrown = true; } MC_CHECK(thrown && p.ptr() == nullptr, "weak-no-object", who); } };
        weak(w.w0, m.weak[0], "w0"); weak(w.w1, m.weak[1], "w1");
    }
    void explore(bool withRaw, bool withPin, bool withWeak, int objs, bool nonOwning)
    {
        sBook = {}; model m; mc::holder<world> h; world& w = *h;
        struct tidy { world& w; ~tidy() { if (w.raw) { w.raw->release(); w.raw = nullptr; } for (auto n : { 0, 1, 2 }) if (sBook.alive[n] && sBook.at[n]->pinned()) { ref_ptr<i_node> t{ sBook.at[n] }; t->unpin(); } for (auto n : { 0, 1, 2 }) if (sBook.alive[n]) { ref_ptr<i_node> t{ sBook.at[n] }; t->next().reset(); } } } tidier{ w }; // breaks the cycles when an execution ends
        for (;;)
        {
            std::uint64_t hash = mc::heap_hash({ h.r() }, true); for (int o = 0; o < OBJ; ++o) mc::hash_combine(hash, int(m.alive[o]) + 2 * int(m.pinned[o])); mc::checkpoint(hash);
            mc::op();
            auto fresh = [&] { for (int o = 0; o < objs; ++o) if (!m.alive[o]) return o; throw mc::prune{}; };
            auto make = [&](int o) { m.alive[o] = true; m.count[o] = 0; m.pinned[o] = false; m.next[o] = {}; return ref{ o, true }; };
            auto loc = [&](int i) -> ref_ptr<i_node>& { return i == 0 ? w.l0 : w.l1; };
            switch (choose(12))
            {
            case 0: { int i = choose(3), o = fresh(); auto how = choose(3); MC_TRACE("l", i, " = new object ", o, " ", how); ref r = make(o);
                if (i == 2) switch (how) { case 0: w.l2 = make_ref<node>(o); break; case 1: w.l2.reset(new node{ o }); break; case 2: { ref_ptr<node> t{ new node{ o } }; w.l2 = t; break; } }
                else switch (how) { case 0: loc(i) = make_ref<node>(o); break; case 1: loc(i).reset(new node{ o }); break; case 2: { ref_ptr<i_node> t{ make_ref<node>(o) }; loc(i) = t; break; } }
                m.set(m.l[i], r); break; }
            case 1: { int i = choose(2), j = choose(3), how = choose(8); MC_TRACE("l", i, " = l", j, " (copy ", how, ")");
                if (j == 2) switch (how) { case 0: loc(i) = w.l2; break; case 1: { ref_ptr<i_node> t{ w.l2 }; loc(i) = t; break; } case 2: loc(i) = static_cast<i_ref_ptr<i_node> const&>(w.l2); break; case 3: loc(i) = static_pointer_cast<i_node>(w.l2); break; case 4: { ref_ptr<i_node> t{ w.l2, w.l2.ptr() }; loc(i) = t; break; } case 5: { ref_ptr<i_node> t{ static_cast<i_ref_ptr<i_node> const&>(w.l2) }; loc(i) = t; break; } case 6: { ref_ptr<i_node> t; t = w.l2; loc(i) = ref_ptr<i_node>{ std::move(t), t.ptr() }; break; } case 7: { ref_ptr<i_node> t{ static_cast<i_ref_ptr<i_node> const&>(w.l2), w.l2.ptr() }; loc(i) = t; break; } }
                else switch (how) { case 0: loc(i) = loc(j); break; case 1: { ref_ptr<i_node> t{ loc(j) }; loc(i) = t; break; } case 2: static_cast<i_ref_ptr<i_node>&>(loc(i)) = static_cast<i_ref_ptr<i_node> const&>(loc(j)); break; case 3: loc(i) = static_cast<i_ref_ptr<i_node> const&>(loc(j)); break; case 4: { ref_ptr<i_node> t{ loc(j), loc(j).ptr() }; loc(i) = t; break; } case 5: { ref_ptr<i_node> t{ static_cast<i_ref_ptr<i_node> const&>(loc(j)) }; loc(i) = t; break; } case 6: { ref_ptr<i_node> t{ static_cast<i_ref_ptr<i_node> const&>(loc(j)), loc(j).ptr() }; loc(i) = t; break; } case 7: { ref_ptr<i_node> t; static_cast<i_ref_ptr<i_node>&>(t) = loc(j); loc(i) = t; break; } }
                m.set(m.l[i], m.l[j]); break; }
            case 2: { int i = choose(2), j = choose(3), how = choose(3); MC_TRACE("l", i, " = move(l", j, ") ", how); ref v = m.l[j];
                if (how == 2) { if (j == 2) { auto p = w.l2.ptr(); ref_ptr<i_node> t{ std::move(w.l2), p }; loc(i) = t; } else { auto p = loc(j).ptr(); ref_ptr<i_node> t{ std::move(loc(j)), p }; loc(i) = t; } }
                else if (j == 2) { if (how) loc(i) = std::move(w.l2); else { ref_ptr<i_node> t{ std::move(w.l2) }; loc(i) = std::move(t); } } else { if (how) loc(i) = std::move(loc(j)); else { ref_ptr<i_node> t{ std::move(loc(j)) }; loc(i) = std::move(t); } }
                if (j != i) { m.add(v); ref old = m.l[j]; m.set(m.l[i], v); m.l[j] = {}; m.drop(old); m.drop(v); } break; }
            case 3: { int i = choose(3), how = choose(3); MC_TRACE("l", i, " reset ", how); if (i == 2) { if (how == 0) w.l2.reset(); else if (how == 1) w.l2 = nullptr; else w.l2 = ref_ptr<node>{}; } else { if (how == 0) loc(i).reset(); else if (how == 1) loc(i) = nullptr; else loc(i) = ref_ptr<i_node>{}; } m.set(m.l[i], {}); break; }
            case 4: { int i = choose(2), j = choose(3); if (m.l[i].to < 0) throw mc::prune{}; auto how = choose(2); MC_TRACE("l", i, "->next = ", how ? "move(l" : "l", j, how ? ")" : ""); int o = m.l[i].to; ref v = m.l[j]; auto& n = loc(i)->next();
                if (!how) { if (j == 2) n = w.l2; else n = loc(j); m.set(m.next[o], v); } else { if (j == 2) n = std::move(w.l2); else n = std::move(loc(j)); m.add(v); m.l[j] = {}; m.set(m.next[o], v); m.drop(v); m.drop(v); } break; }
            case 5: { int i = choose(2), how = choose(2); if (m.l[i].to < 0) throw mc::prune{}; int o = m.l[i].to; MC_TRACE("l", i, " = ", how ? "move(l" : "l", i, "->next", how ? ")" : ""); ref v = m.next[o]; if (how) { loc(i) = std::move(loc(i)->next()); m.add(v); m.next[o] = {}; m.set(m.l[i], v); m.drop(v); m.drop(v); } else { loc(i) = loc(i)->next(); m.set(m.l[i], v); } break; }
            case 6: { if (m.l[0].to < 0) throw mc::prune{}; auto how = choose(3); if (m.l[0].to >= 0 && how < 2) { int o = m.l[0].to; MC_TRACE("l1 = alias(l0) ", how); ref_ptr<i_node> t = how ? ref_ptr<i_node>{ w.l0, w.l0.ptr() } : ref_ptr<i_node>{ *w.l0 }; w.l1 = t; m.set(m.l[1], ref{ o, how ? m.l[0].owns : m.count[o] > 0 }); }
                else { MC_TRACE("l2 = cast(l0)"); w.l2 = dynamic_pointer_cast<node>(w.l0); m.set(m.l[2], m.l[0]); } break; }
            case 7: { if (!withRaw) throw mc::prune{}; if (m.raw < 0) { int i = choose(2); if (m.l[i].to < 0 || !m.l[i].owns) throw mc::prune{}; auto how = choose(2);
                    if (how == 0) { MC_TRACE("raw = l", i, ".detach()"); m.raw = m.l[i].to; m.l[i] = {}; w.raw = loc(i).detach(); }
                    else { int o = m.l[i].to; if (m.pinned[o]) throw mc::prune{}; MC_TRACE("delete l", i, ".release()"); bool thrown = false; i_node* p = nullptr; try { p = loc(i).release(); } catch (i_reference_counted::too_many_references const&) { thrown = true; } MC_CHECK(thrown == (m.count[o] != 1), "release", thrown ? "refused" : "granted", " with ", m.count[o], " owners");
                        if (!thrown) { m.l[i] = {}; m.count[o] = 0; MC_CHECK(p->index() == o && sBook.alive[o], "release", ""); for (auto& x : m.l) if (x.to == o) { throw mc::prune{}; } for (int q = 0; q < OBJ; ++q) if (m.alive[q] && m.next[q].to == o) throw mc::prune{}; delete p; m.kill(o); } } }
                else { int i = choose(2), how = choose(2); int o = m.raw; m.raw = -1; auto p = w.raw; w.raw = nullptr; if (how) { MC_TRACE("l", i, " adopts raw"); loc(i).reset(p, p, true, false); m.set(m.l[i], ref{ o, true }); --m.count[o]; } else { MC_TRACE("raw->release()"); p->release(); m.drop(ref{ o, true }); } } break; }
            case 8: { if (!withWeak) throw mc::prune{}; int i = choose(2), j = choose(4), how = choose(2); auto& x = i ? w.w1 : w.w0; auto& y = i ? w.w0 : w.w1; MC_TRACE("w", i, " = ", j, " ", how); int to;
                if (j < 2) { to = m.l[j].to; if (how) { x = loc(j); } else { weak_ref_ptr<i_node> t{ loc(j) }; x = t; } } else if (j == 2) { to = m.weak[1 - i]; if (how) x = y; else { weak_ref_ptr<i_node> t{ y }; x = t; } } else { to = -1; if (how) x = nullptr; else x.reset(); }
                m.weak[i] = to; break; }
            case 9: { if (!withWeak) throw mc::prune{}; int i = choose(2); auto& x = i ? w.w1 : w.w0; int o = m.weak[i]; auto how = choose(2); if (how) { if (o < 0) throw mc::prune{}; MC_TRACE("l1 = *w", i); ref_ptr<i_node> t{ *x }; MC_CHECK(t.reference_counted() == (m.count[o] > 0), "promote", ""); w.l1 = t; m.set(m.l[1], ref{ o, m.count[o] > 0 }); } else { MC_TRACE("w", i, ".detach()"); auto p = x.detach(); MC_CHECK((p == nullptr) == (o < 0) && (!p || p->index() == o), "weak-detach", ""); m.weak[i] = -1; } break; }
            case 10: { if (!withPin) throw mc::prune{}; if (m.l[0].to < 0) throw mc::prune{}; int o = m.l[0].to; if (!m.pinned[o]) { MC_TRACE("pin ", o); w.l0->pin(); m.pinned[o] = true; MC_CHECK(w.l0->pinned(), "pinned", ""); }
                else { auto how = choose(2); MC_TRACE("unpin ", o, how ? " after the last owner" : ""); if (!how) { if (m.count[o] == 0) throw mc::prune{}; w.l0->unpin(); m.pinned[o] = false; } else { if (!(m.count[o] == 1 && m.l[0].owns)) throw mc::prune{}; i_node* p = w.l0.ptr(); w.l0.reset(); m.set(m.l[0], {}); MC_CHECK(sBook.alive[o] && m.alive[o], "pinned", "destroyed while pinned"); m.pinned[o] = false; m.kill(o); p->unpin(); } } break; }
            case 11: { if (!nonOwning || m.l[0].to < 0) throw mc::prune{}; int o = m.l[0].to; auto how = choose(2); if (how) { MC_TRACE("l1 refers to l0 without owning it"); w.l1.reset(w.l0.ptr(), w.l0.ptr(), false, false); m.set(m.l[1], ref{ o, false }); } else { MC_TRACE("l1 owns what l0 refers to"); if (m.count[o] == 0) throw mc::prune{}; w.l1.reset(w.l0.ptr(), w.l0.ptr(), true, true); m.set(m.l[1], ref{ o, true }); } break; }
            }
            if (m.dangling() || m.unreachable()) throw mc::prune{}; // outside the contract (a cycle let go of, a non-owning reference outlived): not explored further
            check(w, m); mc::validated();
        }
    }
}
MC_STATESPACE("owners", 40, 60) { explore(false, false, false, 3, false); }
MC_STATESPACE("weak", 40, 60) { explore(false, false, true, 2, false); }
MC_STATESPACE("raw", 6, 8) { explore(true, false, false, 2, false); }
MC_STATESPACE("pin", 6, 8) { explore(false, true, true, 2, false); }
MC_STATESPACE("non_owning", 6, 8) { explore(false, false, false, 2, true); }
MC_STATESPACE("all", 5, 7) { explore(true, true, true, 2, true); }
