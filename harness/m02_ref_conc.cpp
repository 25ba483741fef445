// @props M02
// @engine conc
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// References, weak references and lifetime flags of one object used by several threads, each through its own pointers.
#include <neolib/core/reference_counted.hpp>
#include <neolib/core/lifetime.hpp>
#include "conc.hpp"
#include <memory>
#include <thread>
using namespace neolib;
namespace
{
    std::atomic<int> sAlive, sDestroyed;
    struct i_thing : i_reference_counted { typedef i_thing abstract_type; virtual int value() const = 0; };
    struct thing : reference_counted<i_thing> { int v = 7; thing() { ++sAlive; } ~thing() { v = 0; ++sDestroyed; --sAlive; } int value() const override { return v; } };
    struct living : lifetime<> { int v = 7; ~living() { v = 0; } };
    void start() { sAlive = 0; sDestroyed = 0; }
    void ended() { MC_CHECK(sAlive == 0 && sDestroyed == 1, "destroyed", "destroyed ", sDestroyed.load(), " times"); mc::validated(); }
}
MC_CONC("copy_and_drop", 3, 5)
{
    start(); auto p = make_ref<thing, i_thing>(); ref_ptr<i_thing> mine{ p };
    std::thread a{ [q = ref_ptr<i_thing>{ p }]() mutable { ref_ptr<i_thing> r{ q }; MC_CHECK(r->value() == 7, "early", ""); q.reset(); MC_CHECK(r->value() == 7, "early", ""); } };
    std::thread b{ [q = ref_ptr<i_thing>{ p }]() mutable { ref_ptr<i_thing> r; r = std::move(q); MC_CHECK(r->value() == 7, "early", ""); r = r; r = nullptr; } };
    p.reset(); MC_CHECK(mine->value() == 7, "early", ""); mine.reset(); a.join(); b.join(); ended();
}
MC_CONC("last_drop", 3, 6)
{   // nobody copies: exactly one of three drops is the last
    start(); auto p = make_ref<thing, i_thing>(); auto q = p; auto r = p;
    std::thread a{ [&] { q.reset(); } }, b{ [&] { r.reset(); } }; p.reset(); a.join(); b.join(); ended();
}
MC_CONC("take_ownership", 3, 5)
{   // release() is refused while there is another owner
    start(); auto p = make_ref<thing, i_thing>(); auto q = p; std::thread a{ [&] { q.reset(); } };
    i_thing* raw = nullptr; try { raw = p.release(); } catch (i_reference_counted::too_many_references const&) {} if (raw) { MC_CHECK(raw->value() == 7 && !p, "early", ""); } a.join(); delete raw; p.reset(); ended();
}
MC_CONC("weak_made_by_both", 3, 5)
{   // each thread derives a weak pointer from its own reference
    start(); auto p = make_ref<thing, i_thing>(); auto q = p; auto use = [](ref_ptr<i_thing>& mine) { weak_ref_ptr<i_thing> w{ mine }; MC_CHECK(!w.expired() && w->value() == 7, "weak", ""); weak_ref_ptr<i_thing> v{ w }; MC_CHECK(v.ptr() == mine.ptr(), "weak", ""); };
    std::thread a{ [&] { use(q); q.reset(); } }; use(p); p.reset(); a.join(); ended();
}
MC_CONC("weak_outlives", 3, 5)
{   // weak pointers dropped by two threads around the end of the object
    start(); auto p = make_ref<thing, i_thing>(); weak_ref_ptr<i_thing> w{ p }; weak_ref_ptr<i_thing> v{ p };
    std::thread a{ [&] { (void)w.expired(); w.reset(); } }, b{ [&] { p.reset(); } }; { weak_ref_ptr<i_thing> u{ std::move(v) }; v.reset(); (void)u.expired(); } a.join(); b.join(); MC_CHECK(v.expired() && w.expired(), "weak", ""); ended();
}
MC_CONC("weak_expiry_seen", 3, 5)
{
    start(); auto p = make_ref<thing, i_thing>(); weak_ref_ptr<i_thing> w{ p }, v{ p };
    std::thread a{ [&] { p.reset(); MC_CHECK(w.expired(), "weak", "not expired after the last owner went"); } }; while (!v.expired()) std::this_thread::yield(); a.join(); MC_CHECK(v.expired() && !v.valid(), "weak", ""); ended();
}
MC_CONC("lifetime_flags", 3, 5)
{   // flags copied and read in other threads while the object goes away
    auto o = std::make_unique<living>(); destroyed_flag f{ *o }; destroying_flag g{ *o };
    std::thread a{ [h = destroyed_flag{ f }] { bool before = h; destroyed_flag k{ h }; MC_CHECK(!before || bool(k), "backwards", ""); while (!h) std::this_thread::yield(); MC_CHECK(k && k.is_destroyed() && !k.is_alive() && !k.is_destroying(), "flag", ""); } };
    std::thread b{ [h = destroying_flag{ g }]() mutable { int last = 0; auto see = [&] { int s = h.is_alive() ? 1 : h.is_destroying() ? 2 : h.is_destroyed() ? 3 : 0; (void)s; bool d = h.is_destroyed(); MC_CHECK(!(last == 3 && !d), "backwards", ""); if (d) last = 3; }; see(); see(); } };
    o.reset(); MC_CHECK(f && !g && f.is_destroyed(), "flag", ""); a.join(); b.join(); mc::validated();
}
MC_CONC("flags_dropped", 3, 5)
{
    auto o = std::make_unique<living>(); std::thread a{ [f = destroyed_flag{ *o }]() mutable { destroyed_flag g{ std::move(f) }; (void)bool(g); } }; std::thread b{ [f = destroyed_flag{ *o }] { destroyed_flag g{ f }; g = f; (void)bool(g); } }; o.reset(); a.join(); b.join(); mc::validated();
}
MC_CONC("shared_in_chain", 2, 4)
{   // both threads release the head of a chain whose tail is shared
    struct i_link : i_reference_counted { typedef i_link abstract_type; }; static std::atomic<int> gone; gone = 0; struct link : reference_counted<i_link> { ref_ptr<i_link> next; link(ref_ptr<i_link> n) : next(n) {} ~link() { ++gone; } };
    auto tail = make_ref<link, i_link>(ref_ptr<i_link>{}); auto x = make_ref<link, i_link>(tail), y = make_ref<link, i_link>(tail); tail.reset(); std::thread a{ [&] { x.reset(); } }; y.reset(); a.join(); MC_CHECK(gone == 3, "destroyed", gone.load()); mc::validated();
}
