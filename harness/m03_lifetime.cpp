// @props M03
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// Lifetime states and flags against a reference state machine, and scoped guards under every nesting and exit.
#include <neolib/core/lifetime.hpp>
#include <neolib/core/scoped.hpp>
#include "mc.hpp"
#include <memory>
#include <optional>
using namespace neolib; using mc::choose;
namespace
{
    struct object : lifetime<> { int v = 1; std::function<void()> inDestructor; object(lifetime_state s = lifetime_state::Alive) : lifetime<>(s) {} object(object const&) = default; object& operator=(object const&) = default; ~object() { if (inDestructor) inDestructor(); } };
    enum st { C, A, D, X };
    st state(lifetime_state s) { return s == lifetime_state::Creating ? C : s == lifetime_state::Alive ? A : s == lifetime_state::Destroying ? D : X; }
    template <typename F> void flag(F const& f, int s, bool value, const char* who)
    {
        MC_CHECK(f.is_creating() == (s == C) && f.is_alive() == (s == A) && f.is_destroying() == (s == D) && f.is_destroyed() == (s == X), "flag-state", who, " says ", f.is_creating(), f.is_alive(), f.is_destroying(), f.is_destroyed(), " expected state ", s);
        MC_CHECK(bool(f) == value, "flag-value", who, " in state ", s);
    }
    void machine(int depth)
    {
        struct slot { std::unique_ptr<object> o; int s = X; } o[2];
        std::optional<destroyed_flag> fx[2]; std::optional<destroying_flag> fd[2]; std::optional<lifetime_flag<lifetime_state::Alive>> fa; std::optional<lifetime_flag<lifetime_state::Creating>> fc;
        // what each flag refers to: a reference cell per object made
        struct cell { int s; }; std::shared_ptr<cell> obj[2], rx[2], rd[2], ra, rc;
        auto make = [&](int i, lifetime_state s) { o[i].o = std::make_unique<object>(s); obj[i] = std::make_shared<cell>(cell{ state(s) }); };
        make(0, choose(2) ? lifetime_state::Alive : lifetime_state::Creating); rx[0] = obj[0]; fx[0].emplace(*o[0].o);
        for (int k = 0; k < depth; ++k)
        {
            mc::op(); int what = int(choose(14)), i = what < 11 ? int(choose(2)) : 0;
            #define need(c) if (!(c)) throw mc::prune{}
            switch (what)
            {
            case 0: need(!o[i].o); { bool al = choose(2); MC_TRACE("make ", i, al ? " alive" : " creating"); make(i, al ? lifetime_state::Alive : lifetime_state::Creating); } break;
            case 1: { need(o[i].o); MC_TRACE("set_alive ", i); bool thrown = false; try { o[i].o->set_alive(); } catch (object::not_creating const&) { thrown = true; } MC_CHECK(thrown == (obj[i]->s != C), "set-alive", ""); if (!thrown) obj[i]->s = A; break; }
            case 2: { need(o[i].o); MC_TRACE("set_destroying ", i); bool thrown = false; try { o[i].o->set_destroying(); } catch (object::already_destroyed const&) { thrown = true; } MC_CHECK(thrown == (obj[i]->s == X), "set-destroying", ""); if (!thrown) obj[i]->s = D; break; }
            case 3: need(o[i].o); MC_TRACE("set_destroyed ", i); o[i].o->set_destroyed(); obj[i]->s = X; break;
            case 4: { need(o[i].o); MC_TRACE("destroy ", i); int before = obj[i]->s; if (rx[i] == obj[i]) o[i].o->inDestructor = [&, i] { flag(*fx[i], obj[i]->s, obj[i]->s == X, "flag in the destructor"); }; (void)before; o[i].o.reset(); obj[i]->s = X; break; }
            case 5: need(o[i].o); MC_TRACE("flag ", i); switch (choose(4)) { case 0: fx[i].emplace(*o[i].o); rx[i] = obj[i]; break; case 1: fd[i].emplace(*o[i].o); rd[i] = obj[i]; break; case 2: fa.emplace(*o[i].o); ra = obj[i]; break; case 3: fc.emplace(*o[i].o); rc = obj[i]; break; } break;
            case 6: need(fx[i]); MC_TRACE("copy flag ", i); { std::optional<destroyed_flag> t{ *fx[i] }; flag(*t, rx[i]->s, rx[i]->s == X, "copy"); fx[1 - i] = t; rx[1 - i] = rx[i]; } break;
            case 7: need(fx[i]); MC_TRACE("move flag ", i); { destroyed_flag t{ std::move(*fx[i]) }; fx[i].reset(); if (!fx[1 - i]) fx[1 - i].emplace(std::move(t)); else *fx[1 - i] = std::move(t); rx[1 - i] = rx[i]; rx[i].reset(); } break;
            case 8: need(fx[0] && fx[1]); MC_TRACE("assign flag ", i); *fx[i] = *fx[1 - i]; rx[i] = rx[1 - i]; break;
            case 9: need(o[i].o && !o[1 - i].o); MC_TRACE("copy object ", i); o[1 - i].o = std::make_unique<object>(*o[i].o); obj[1 - i] = std::make_shared<cell>(cell{ A }); break;
            case 10: need(o[i].o && o[1 - i].o); MC_TRACE("assign object ", i); *o[1 - i].o = *o[i].o; break;
            case 11: need(fx[0]); MC_TRACE("drop flag 0"); fx[0].reset(); rx[0].reset(); break;
            case 12: need(fd[0] && fd[1]); MC_TRACE("swap destroying flags"); std::swap(*fd[0], *fd[1]); std::swap(rd[0], rd[1]); break;
            case 13: need(o[0].o); MC_TRACE("through the interface"); { i_lifetime const& l = *o[0].o; destroyed_flag t{ l }; flag(t, obj[0]->s, obj[0]->s == X, "interface flag"); MC_CHECK(!t.debug(), "debug", ""); t.set_debug(); MC_CHECK(t.debug(), "debug", ""); } break;
            }
            for (int j : { 0, 1 })
            {
                if (o[j].o) { auto& x = *o[j].o; int s = obj[j]->s; MC_CHECK(state(x.object_state()) == s && x.is_creating() == (s == C) && x.is_alive() == (s == A) && x.is_destroying() == (s == D) && x.is_destroyed() == (s == X), "object-state", j, " is ", int(state(x.object_state())), " expected ", s); }
                if (fx[j]) flag(*fx[j], rx[j]->s, rx[j]->s == X, "destroyed flag"); if (fd[j]) flag(*fd[j], rd[j]->s, rd[j]->s == D, "destroying flag");
            }
            if (fa) flag(*fa, ra->s, ra->s == A, "alive flag"); if (fc) flag(*fc, rc->s, rc->s == C, "creating flag");
        }
        mc::validated();
    }
    struct boom {};
    // every nesting of guards to the given depth, every exit (normal, exception, ignored)
    template <typename Enter> void nest(int depth, Enter enter) { if (depth == 0) { if (choose(2)) throw boom{}; return; } enter([&] { nest(depth - 1, enter); }); }
}
MC_SCENARIO("states") { machine(mc::tier(5, 6)); }
MC_SCENARIO("scoped")
{
    int depth = 1 + int(choose(3)); int kind = int(choose(8)); MC_TRACE("kind ", kind, " depth ", depth);
    auto run = [&](auto enter) { try { nest(depth, enter); } catch (boom const&) {} };
    switch (kind)
    {
    case 0: { bool f = choose(2); run([&](auto inner) { bool v = choose(2), old = f; try { scoped_flag g{ f, v }; MC_CHECK(f == v && g.saved() == old, "set", ""); inner(); MC_CHECK(f == v, "set", ""); } catch (boom const&) { MC_CHECK(f == old, "restored", ""); throw; } MC_CHECK(f == old, "restored", ""); }); break; }
    case 1: { std::atomic<bool> f{ choose(2) != 0 }; run([&](auto inner) { bool v = choose(2), old = f; try { scoped_atomic_flag g{ f, v }; MC_CHECK(f == v && g.saved() == old, "set", ""); inner(); MC_CHECK(f == v, "set", ""); } catch (boom const&) { MC_CHECK(f == old, "restored", ""); throw; } MC_CHECK(f == old, "restored", ""); }); break; }
    case 2: { int n = int(choose(3)), start = n; run([&](auto inner) { int old = n; bool ig = choose(2); int after; try { scoped_counter<int> g{ n }; MC_CHECK(n == old + 1, "counted", ""); inner(); after = n; if (ig) g.ignore(); } catch (boom const&) { MC_CHECK(n >= old, "restored", ""); throw; } MC_CHECK(n == (ig ? after : after - 1), "restored", n); }); (void)start; break; }
    case 3: { int a = 1, b = 2; int* p = choose(2) ? &a : nullptr; run([&](auto inner) { int* old = p; int* v = choose(2) ? &a : &b; try { scoped_pointer<int> g{ p, v }; MC_CHECK(p == v, "set", ""); inner(); MC_CHECK(p == v, "set", ""); } catch (boom const&) { MC_CHECK(p == old, "restored", ""); throw; } MC_CHECK(p == old, "restored", ""); }); break; }
    case 4: { run([&](auto inner) { mc::elem* p = new mc::elem(3); bool ig = choose(2); long live = mc::elem::live; try { scoped_deleter<mc::elem> g{ p }; inner(); if (ig) g.ignore(); } catch (boom const&) { MC_CHECK(p == nullptr && mc::elem::live == live - 1, "deleted", ""); throw; } MC_CHECK((p == nullptr) == !ig && mc::elem::live == live - !ig, "deleted", ""); if (ig) delete p; }); break; }
    case 5: { int runs = 0; run([&](auto inner) { int r = runs; bool ig = choose(2); int after = 0; bool thrown = false; auto fn = [&] { ++runs; }; try { scoped_cleanup<decltype(fn)> g{ fn }; MC_CHECK(runs == r, "early", ""); inner(); after = runs; if (ig) g.ignore(); } catch (boom const&) { thrown = true; MC_CHECK(runs > r, "cleanup", ""); throw; } (void)thrown; MC_CHECK(runs == after + !ig, "cleanup", ""); }); break; }
    case 6: { std::string s = "x"; run([&](auto inner) { std::string old = s, v(1 + choose(2), 'v'); try { scoped_object<std::string> g{ s, v }; MC_CHECK(s == v && g.saved() == old, "set", ""); inner(); MC_CHECK(s == v, "set", ""); } catch (boom const&) { MC_CHECK(s == old, "restored", ""); throw; } MC_CHECK(s == old, "restored", ""); }); break; }
    case 7: { optional<int> o; if (choose(2)) o = 5; auto val = [&] { return o ? *o : -1; }; run([&](auto inner) { int old = val(), v = 6 + int(choose(2)); bool ifv = choose(2); auto body = [&](int want) { MC_CHECK(val() == want, "set", val()); inner(); MC_CHECK(val() == want, "set", ""); };
        try { if (ifv) { scoped_optional_if<int> g{ o, v }; body(old == -1 ? v : old); } else { scoped_optional<int> g{ o, v }; body(v); } } catch (boom const&) { MC_CHECK(val() == old, "restored", val()); throw; } MC_CHECK(val() == old, "restored", val()); }); break; }
    }
    mc::validated();
}
MC_SCENARIO("ignored")
{   // a guard told to ignore leaves the value as it is
    bool f = choose(2); std::atomic<bool> a{ f }; int n = 3, x = 1, y = 2; int* p = &x; std::string s = "x"; optional<int> o; if (f) o = 5;
    try { scoped_flag g{ f, !f }; scoped_atomic_flag h{ a, !a }; scoped_counter<int> c{ n }; scoped_pointer<int> q{ p, &y }; scoped_object<std::string> t{ s, "y" }; scoped_optional<int> u{ o, 6 }; g.ignore(); h.ignore(); c.ignore(); q.ignore(); t.ignore(); u.ignore(); if (choose(2)) throw boom{}; } catch (boom const&) {}
    MC_CHECK(a == f && n == 4 && p == &y && s == "y" && o && *o == 6, "ignored", "");
    optional<int> v; { scoped_optional_if<int> g{ v, 6 }; MC_CHECK(v && *v == 6, "ignored", ""); g.ignore(); } MC_CHECK(v && *v == 6, "ignored", ""); { scoped_optional_if<int> g{ v, 7 }; MC_CHECK(*v == 6, "ignored", ""); v = 8; g.ignore(); } MC_CHECK(v && *v == 8, "ignored", ""); mc::validated();
}
