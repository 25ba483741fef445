// mc.hpp - small stateless model checker for sequential code.
//
// A scenario is a function that drives the real code and asks mc::choose(n) for every
// nondeterministic decision (operation, argument, environment answer).  The runner executes it for
// EVERY sequence of answers (depth-first, by re-execution), in parallel worker processes, and reports
// the first answer sequence on which mc::fail() is called, an unexpected exception escapes, the process
// dies (ASan, signal) or an execution stops making progress.  Nothing is sampled.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <atomic>
#include <compare>

namespace mc
{
    struct violation { std::string key, message; };
    struct prune {};   // abandons the current execution (not an error)

    // --- used by scenarios -------------------------------------------------------------------------
    std::uint32_t choose(std::uint32_t n, const char* label = nullptr);   // 0..n-1, all of them
    void heavy();                       // after the choices, before a long loop: work is distributed by the choices made so far
    bool fresh();                       // true when the choices made so far were not all checked by an earlier execution
    bool tracing();                     // true while a trace is wanted (samples, replays)
    void trace_line(std::string const& s);
    [[noreturn]] void fail(std::string const& key, std::string const& message);
    void state(std::uint64_t h);        // record a visited state
    void op();                          // count one transition on the real code
    void allow_leaks();                 // this execution leaves heap blocks behind on purpose
    void validated();                   // count one execution whose trace was compared with the reference model in full
    int tier(int quick, int thorough);  // tier-dependent bound
    bool thorough();

    // --- explicit-state exploration (MC_STATESPACE scenarios) ----------------------------------------
    // checkpoint(h) ends one transition: breadth-first search continues from here only if no execution reached a
    // state with hash h before.  heap_hash(roots) hashes the complete object graph reachable from the roots through
    // live heap blocks, with every pointer replaced by (block number in discovery order, offset).
    struct root { void const* p; std::size_t n; };
    void checkpoint(std::uint64_t h);
    std::uint64_t heap_hash(std::vector<root> const& roots, bool elementValues = false);
    template <typename T> struct holder    // storage for a root object: zeroed first, so that padding is deterministic
    {
        T* p; bool dead = false;
        template <typename... A> holder(A&&... a) { void* m = ::operator new(sizeof(T)); std::memset(m, 0, sizeof(T)); p = new (m) T(std::forward<A>(a)...); }
        ~holder() noexcept(false) { reset(); }
        void reset() { if (p) { auto q = p; p = nullptr; q->~T(); ::operator delete((void*)q); } }
        holder(holder const&) = delete;
        T& operator*() { return *p; } T* operator->() { return p; }
        root r() const { return { p, sizeof(T) }; }
    };
    std::size_t live_blocks();

    template <typename T> inline void hash_combine(std::uint64_t& h, T const& v) { h ^= std::hash<T>{}(v) + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; }
    template <typename Range> inline std::uint64_t hash_range(Range const& r, std::uint64_t seed = 1469598103934665603ULL)
    { std::uint64_t h = seed; for (auto const& e : r) hash_combine(h, e); return h; }

    template <typename... A> inline std::string str(A const&... a) { std::ostringstream o; ((o << a), ...); return o.str(); }
    #define MC_TRACE(...) do { if (::mc::tracing()) ::mc::trace_line(::mc::str(__VA_ARGS__)); } while (0)
    #define MC_CHECK(cond, key, ...) do { if (!(cond)) ::mc::fail(key, ::mc::str(__VA_ARGS__, "  [", #cond, "]")); } while (0)
    template <typename R> inline std::string show(R const& r) { std::ostringstream o; o << "["; bool f = true; for (auto const& e : r) { if (!f) o << " "; f = false; o << e; } o << "]"; return o.str(); }

    // Instrumented element: counts live instances, detects use of dead / moved-to-freed elements.
    struct elem
    {
        static inline long live = 0;
        static constexpr std::uint32_t MAGIC = 0xE1E3E7EFu;
        int value; std::uint32_t magic; elem* self;
        elem(int v = 0) : value(v), magic(MAGIC), self(this) { ++live; }
        elem(elem const& o) : value(o.get()), magic(MAGIC), self(this) { ++live; }
        elem(elem&& o) : value(o.get()), magic(MAGIC), self(this) { o.value = -77; ++live; }
        elem& operator=(elem const& o) { check(); value = o.get(); return *this; }
        elem& operator=(elem&& o) { check(); int v = o.get(); if (&o != this) o.value = -77; value = v; return *this; }
        ~elem() { check(); magic = 0; self = nullptr; value = 0; --live; }
        void check() const { if (magic != MAGIC || self != this) fail_dead(); }
        [[noreturn]] void fail_dead() const;
        int get() const { check(); return value; }
        friend bool operator==(elem const& a, elem const& b) { return a.get() == b.get(); }
        friend bool operator!=(elem const& a, elem const& b) { return a.get() != b.get(); }
        friend bool operator<(elem const& a, elem const& b) { return a.get() < b.get(); }
        friend bool operator>(elem const& a, elem const& b) { return a.get() > b.get(); }
        friend bool operator<=(elem const& a, elem const& b) { return a.get() <= b.get(); }
        friend bool operator>=(elem const& a, elem const& b) { return a.get() >= b.get(); }
        friend std::strong_ordering operator<=>(elem const& a, elem const& b) { return a.get() <=> b.get(); }
        friend std::ostream& operator<<(std::ostream& o, elem const& e) { return o << e.get(); }
    };

    // --- registration ------------------------------------------------------------------------------
    struct scenario { std::string name; std::function<void()> body; int splitDepth; double hangSeconds; int depthQuick = 0, depthThorough = 0; };
    std::vector<scenario>& scenarios();
    inline std::string dashed(std::string s) { for (auto& c : s) if (c == ' ') c = '-'; return s; }   // names and keys are single words
    struct registrar { registrar(const char* n, std::function<void()> f, int split = 3, double hang = 20) { scenarios().push_back({ dashed(n), f, split, hang }); } };
    struct registrar_ss { registrar_ss(const char* n, std::function<void()> f, int dq, int dt, double hang = 20) { scenarios().push_back({ dashed(n), f, 0, hang, dq, dt }); } };
    #define MC_CAT2(a,b) a##b
    #define MC_CAT(a,b) MC_CAT2(a,b)
    #define MC_SCENARIO_S(name, split) static void MC_CAT(mc_body_, __LINE__)(); static ::mc::registrar MC_CAT(mc_reg_, __LINE__){ name, MC_CAT(mc_body_, __LINE__), split }; static void MC_CAT(mc_body_, __LINE__)()
    #define MC_SCENARIO(name) MC_SCENARIO_S(name, 3)
    #define MC_STATESPACE(name, depthQuick, depthThorough) static void MC_CAT(mc_body_, __LINE__)(); static ::mc::registrar_ss MC_CAT(mc_reg_, __LINE__){ name, MC_CAT(mc_body_, __LINE__), depthQuick, depthThorough }; static void MC_CAT(mc_body_, __LINE__)()
}
template <> struct std::hash<mc::elem> { std::size_t operator()(mc::elem const& e) const noexcept { return std::hash<int>{}(e.value); } };
