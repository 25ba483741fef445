// sched.cpp - controlled scheduler, happens-before race detector and exhaustive schedule exploration for real code that
// was compiled with -fsanitize=thread (this file supplies the __tsan_* runtime) and calls pthreads.
#include "conc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cxxabi.h>
#include <fstream>
#include <set>
#include <map>
#include <algorithm>
#include <thread>
#include <typeinfo>
#include <sys/single_threaded.h>
#include <link.h>
#include <elf.h>

extern "C" char __executable_start; extern "C" char _end; extern "C" void* __dso_handle; extern "C" int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);

namespace
{
    typedef std::uint64_t u64; typedef std::uint32_t u32; typedef std::uint8_t u8; typedef std::uintptr_t uptr; typedef std::int64_t i64;
    constexpr int MAXT = 16;
    constexpr u32 MAXPATH = 4000;
    constexpr u64 TABLE_BITS = 26, TABLE = 1ull << TABLE_BITS;
    constexpr uptr ARENA_SIZE = 1ull << 30;
    constexpr std::size_t STACK = 512 * 1024;
    constexpr u32 MAXSTEPS = 30000;

    inline u64 mix(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdULL; a ^= a >> 32; a *= 0xc4ceb9fe1a85ec53ULL; a ^= a >> 29; return a; }

    // ---- real functions -----------------------------------------------------------------------------------------
    template <typename F> F real_fn(F& cache, const char* name, const char* ver = nullptr) { if (!cache) cache = reinterpret_cast<F>(ver ? dlvsym(RTLD_NEXT, name, ver) : dlsym(RTLD_NEXT, name)); return cache; }
    #define REAL(name) real_fn(real_##name, #name)
    #define DECL(name) decltype(&::name) real_##name = nullptr
    DECL(pthread_create); DECL(pthread_join); DECL(pthread_detach); DECL(pthread_mutex_lock); DECL(pthread_mutex_trylock); DECL(pthread_mutex_unlock); DECL(pthread_cond_signal); DECL(pthread_cond_broadcast);
    DECL(pthread_cond_wait); DECL(pthread_cond_timedwait); DECL(pthread_once); DECL(sched_yield); DECL(nanosleep); DECL(clock_nanosleep); DECL(usleep); DECL(clock_gettime); DECL(pthread_cond_clockwait);
    DECL(pthread_exit); DECL(pthread_mutex_timedlock); DECL(pthread_mutex_clocklock);

    long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
    {
        long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
        __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    double now() { timespec t; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return t.tv_sec + t.tv_nsec * 1e-9; }

    // ---- state ----------------------------------------------------------------------------------------------------
    struct vclock { u32 c[MAXT]; void join(vclock const& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
    enum kind : u8 { K_NONE, K_START, K_LOAD, K_STORE, K_RMW, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CWAIT, K_SIGNAL, K_BROADCAST, K_JOIN, K_FWAIT, K_FWAKE, K_YIELD, K_SLEEP, K_ONCE, K_FENCE, K_EVENT, K_CLOCK, K_CHOOSE, K_END, K_CREATE, K_TIMEDLOCK };
    const char* kname[] = { "none", "start", "load", "store", "rmw", "lock", "trylock", "unlock", "cond-wait", "signal", "broadcast", "join", "futex-wait", "futex-wake", "yield", "sleep", "once", "fence", "event", "clock", "choose", "end", "create", "timed-lock" };
    enum wait_t : u8 { W_NONE, W_LOCK, W_COND, W_JOIN, W_FUTEX, W_SLEEP, W_ONCE, W_ALL };

    struct object
    {
        uptr addr; u32 exec; u64 name; u64 version; vclock rel;
        int owner; int depth; bool recursive, isMutex, isCond, tried, known, learned; int lastTid; bool multi, everWrite; int once;
    };
    struct thr
    {
        int id; bool used, finished, detached, joined, yielded, quietMode, timedOut, woken; int quiet;
        wait_t wait; object* wobj; thr* wthr; i64 deadline; bool timed; object* waitMutex; int waitDepth;
        u64 name, hist; u32 allocs, children; u32 spin; u64 spinVersion;
        vclock C, acqPending, relFence; bool hasRelFence;
        std::atomic<u32> go; pthread_t real; void* (*fn)(void*); void* arg; void* ret; char* stackBase;
        uptr calls[128]; int depth; u32 waitSeq;
    };
    thread_local thr* self __attribute__((tls_model("initial-exec"))) = nullptr;
    thr T[MAXT]; int nT; thr* cur; char* stacks;
    u32 execNo = 1; bool inExecution = false;
    std::atomic<u32> execDone{ 0 };
    i64 clockNs; u64 writeVersion; u32 steps_; u32 livelockRounds; u32 waitSeqNo; unsigned hwThreads = 2; bool allowLeaks, spuriousOn = true, timeoutsOn = true;
    std::vector<int> logSteps;
    int budgetUsed, bound; bool pruned;

    struct eng { thr* s; eng() : s(self) { self = nullptr; } ~eng() { self = s; } };
    // ---- objects (by address, per execution) ------------------------------------------------------------------------
    constexpr u32 OBJ_BITS = 16, OBJS = 1u << OBJ_BITS;
    object* objTab; u32 objCount; std::vector<object*>* syncObjs;

    // ---- arena ------------------------------------------------------------------------------------------------------
    struct block { uptr start; std::size_t size; u64 name; u32 exec; bool freed, counted; uptr allocPc, freePc; };
    char* arena; uptr arenaTop; u32* blockOf; block* blocks; u32 nBlocks; long liveNow; long liveInExec; u32 blocksBase; uptr topBase;
    void arena_init()
    {
        if (arena) return;
        auto map = [](std::size_t n) { return (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
        arena = map(ARENA_SIZE); blockOf = (u32*)map(ARENA_SIZE / 16 * 4); blocks = (block*)map(sizeof(block) * (1u << 24)); nBlocks = 1; arenaTop = 0;
        objTab = (object*)map(sizeof(object) * OBJS); stacks = map(STACK * MAXT);
    }
    inline bool in_arena(uptr a) { return a - (uptr)arena < ARENA_SIZE; }
    inline bool in_stacks(uptr a) { return a - (uptr)stacks < STACK * MAXT; }
    inline bool in_exe(uptr a) { return a >= (uptr)&__executable_start && a < (uptr)&_end; }
    inline bool modelled(uptr a) { return in_arena(a) || in_stacks(a) || in_exe(a); }

    // ---- race shadow ------------------------------------------------------------------------------------------------
    struct cell { u32 clock; u8 tid, mask, flags, pad; uptr pc; };   // flags 1 write 2 atomic 4 valid
    struct shadow { uptr gran; u32 exec; u32 next; cell c[4]; };
    constexpr u32 SH_BITS = 18, SHS = 1u << SH_BITS; shadow* sh_; u32 shCount;

    [[noreturn]] void violation_now(std::string const& key, std::string const& msg);
    bool nonfatal(std::string const& key, std::string const& msg);
    std::string where(uptr pc); std::string fn_of(uptr pc);
    bool tracingOn = false; int traceFd = -1;
    void trace_raw(std::string const& s) { std::string l = s + "\n"; if (traceFd >= 0) { (void)!write(traceFd, l.data(), l.size()); } if (getenv("MC_TRACE_LIVE")) fprintf(stderr, "  %s\n", s.c_str()); }

    void check_block(uptr a, std::size_t n, bool w, uptr pc)
    {
        u32 b = blockOf[(a - (uptr)arena) >> 4];
        block& k = blocks[b];
        if (b == 0 || a < k.start || a + n > k.start + k.size)
        {
            if (b != 0 && blockOf[(a + n - 1 - (uptr)arena) >> 4] == b && a >= k.start && k.freed == false && a < k.start + k.size) {}
            std::string m = mc::str(w ? "write" : "read", " of ", n, " bytes outside any heap block at ", where(pc));
            violation_now("heap-overflow", m);
        }
        if (k.freed) violation_now("use-after-free", mc::str(w ? "write" : "read", " of freed memory by T", self->id, " at ", where(pc), "; freed at ", where(k.freePc), "; allocated at ", where(k.allocPc)));
    }
    u64 obj_name(uptr a)
    {
        if (in_arena(a)) { block& b = blocks[blockOf[(a - (uptr)arena) >> 4]]; return mix(b.name, a - b.start); }
        if (in_stacks(a)) { std::size_t s = (a - (uptr)stacks) / STACK; return mix(T[s].name + 77, (uptr)T[s].stackBase - a); }
        return mix(0x61, a - (uptr)&__executable_start);
    }
    inline object* obj(uptr a)
    {
        u32 i = u32((a * 0x9E3779B97F4A7C15ull) >> (64 - OBJ_BITS));
        for (;; i = (i + 1) & (OBJS - 1))
        {
            object& o = objTab[i];
            if (o.exec == execNo) { if (o.addr == a) return &o; continue; }
            if (++objCount > OBJS * 3 / 4) { fprintf(stderr, "sched: object table full\n"); _exit(3); }
            memset(&o, 0, sizeof o); o.exec = execNo; o.addr = a; o.name = obj_name(a); o.version = o.name; o.owner = -1; o.lastTid = -1;
            return &o;
        }
    }
    void race_access(uptr a, std::size_t n, bool w, bool atomic, uptr pc)
    {
        if (!modelled(a)) return;
        if (in_arena(a)) check_block(a, n, w, pc);
        uptr end = a + n;
        while (a < end)
        {
            uptr g = a >> 3; std::size_t off = a & 7, len = std::min<std::size_t>(8 - off, end - a); u8 mask = u8(((1u << len) - 1) << off);
            a += len;
            u32 i = u32((g * 0x9E3779B97F4A7C15ull) >> (64 - SH_BITS)); shadow* s;
            for (;; i = (i + 1) & (SHS - 1))
            {
                s = &sh_[i];
                if (s->exec == execNo) { if (s->gran == g) break; continue; }
                if (++shCount > SHS * 7 / 8) { fprintf(stderr, "sched: shadow full\n"); _exit(3); }
                s->exec = execNo; s->gran = g; s->next = 0; memset(s->c, 0, sizeof s->c); break;
            }
            u8 fl = (w ? 1 : 0) | (atomic ? 2 : 0) | 4; int slot = -1; int me = self->id;
            for (int k = 0; k < 4; ++k)
            {
                cell& c = s->c[k];
                if (!(c.flags & 4)) { if (slot < 0) slot = k; continue; }
                if (c.tid == me) { if ((c.mask & ~mask) == 0 && ((c.flags & 1) <= (fl & 1)) && ((c.flags & 2) >= (fl & 2))) slot = k; continue; }
                if ((c.mask & mask) && ((c.flags | fl) & 1) && !((c.flags & fl) & 2) && c.clock > self->C.c[c.tid])
                {
                    std::string f1 = fn_of(pc), f2 = fn_of(c.pc); if (f2 < f1) std::swap(f1, f2);
                    nonfatal("race:" + f1 + "|" + f2, mc::str("data race: ", atomic ? "atomic " : "", w ? "write" : "read", " by T", me, " at ", where(pc), " is unordered with ", c.flags & 2 ? "atomic " : "", c.flags & 1 ? "write" : "read", " by T", int(c.tid), " at ", where(c.pc)));
                    c.flags = 0; continue;
                }
                else if (c.clock <= self->C.c[c.tid] && (c.mask & ~mask) == 0 && (fl & 1) && !(fl & 2) && slot < 0) slot = k; // ordered before us and covered
            }
            if (slot < 0) slot = s->next++ & 3;
            s->c[slot] = cell{ self->C.c[me], u8(me), mask, fl, 0, pc };
        }
    }

    // ---- shared memory ------------------------------------------------------------------------------------------------
    struct job { u32 fixed, len; u8 path[MAXPATH]; };
    constexpr u32 QCAP = 2048;
    struct slot
    {
        std::atomic<u64> execs, ops, prunedRuns; std::atomic<u32> running, len, failed, done; u8 path[MAXPATH]; char failKey[512]; char failMsg[8192]; u32 maxPath; std::atomic<u64> validatedRuns;
    };
    struct shared_t
    {
        std::atomic<u32> stop, idle, workers, grew, qlock; u32 qn; job q[QCAP];
        std::atomic<u64> states, saturated, sharedObjs; std::atomic<u32> knownHit[64]; std::atomic<u64> sharedSet[1 << 16], frozen[1 << 16]; std::atomic<u64> nSchedules;
    };
    shared_t* sh; slot* me; std::atomic<u64>* table; u64 salt;
    template <typename X> X* shmem(std::size_t n) { void* p = mmap(nullptr, n * sizeof(X), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return static_cast<X*>(p); }
    void qlock() { u32 z = 0; while (!sh->qlock.compare_exchange_weak(z, 1)) { z = 0; raw_syscall(SYS_sched_yield); } }
    void qunlock() { sh->qlock = 0; }

    std::vector<u8> path, arity; std::size_t cursor; std::size_t replayLen; bool useTable = true; u32 fixedLen;
    bool thoroughTier; std::vector<std::string> known;
    int knownIndex(std::string const& k) { for (std::size_t i = 0; i < known.size() && i < 64; ++i) if (known[i] == k) return int(i); return -1; }

    bool is_shared(u64 name) { u64 i = name * 0x9E3779B97F4A7C15ull >> 48; for (int n = 0; n < 256; ++n, i = (i + 1) & 0xffff) { u64 v = sh->frozen[i].load(std::memory_order_relaxed); if (v == name) return true; if (v == 0) return false; } return true; }
    void make_shared_obj(u64 name) { u64 i = name * 0x9E3779B97F4A7C15ull >> 48; for (int n = 0; n < 256; ++n, i = (i + 1) & 0xffff) { u64 v = sh->sharedSet[i]; if (v == name) return; if (v == 0) { if (sh->sharedSet[i].compare_exchange_strong(v, name)) { sh->grew = 1; sh->sharedObjs++; return; } if (v == name) return; } } }
    // sharedSet key of "unlock is a scheduling point": name+1

    std::map<uptr, std::string>* symCache;
    std::string symbolize(uptr pc, bool full)
    {
        char cmd[256], exe[200]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return "?"; exe[n] = 0;
        snprintf(cmd, sizeof cmd, "addr2line -Cfie %s %lx 2>/dev/null", exe, (unsigned long)(pc - 1 - ((uptr)&__executable_start)));
        // PIE: addresses are relative to the load base
        thr* s = self; self = nullptr;
        int fd[2]; std::string out;
        if (pipe(fd) == 0)
        {
            pid_t p = fork();
            if (p == 0) { dup2(fd[1], 1); close(fd[0]); execl("/bin/sh", "sh", "-c", cmd, (char*)0); _exit(1); }
            close(fd[1]); char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, k); close(fd[0]); int st; waitpid(p, &st, 0);
        }
        self = s;
        std::istringstream is(out); std::string f, l, r, first;
        while (std::getline(is, f) && std::getline(is, l))
        {
            auto sl = l.rfind('/'); if (sl != std::string::npos) l = l.substr(sl + 1);
            auto cut = f.find('('); std::string shortf = f.substr(0, cut); { int d = 0; std::string o; for (char c : shortf) { if (c == '<') ++d; if (!d) o += c; if (c == '>') --d; } shortf = o; }
            auto sp = l.find(" ("); if (sp != std::string::npos) l = l.substr(0, sp);
            if (first.empty()) first = shortf;
            if (full) { if (!r.empty()) r += " <- "; r += shortf + " " + l; }
            else if (shortf.find("std::") == std::string::npos && shortf.find("__gnu") != 0 && shortf.find("operator") != 0 && shortf.find("_") != 0 && shortf != "??") return shortf;
        }
        return full ? r : first;
    }
    std::string fn_of(uptr pc) { if (!symCache) symCache = new std::map<uptr, std::string>; auto i = symCache->find(pc); if (i != symCache->end()) return i->second; auto s = symbolize(pc, false); for (auto& c : s) if (c == ' ') c = '_'; (*symCache)[pc] = s; return s; }
    std::string where(uptr pc) { return pc ? symbolize(pc, true) : "?"; }

    std::string thread_states()
    {
        std::string s;
        for (int i = 0; i < nT; ++i)
        {
            thr& t = T[i]; if (t.finished) continue;
            s += mc::str(" | T", i, " ", t.wait == W_LOCK ? "waiting for a mutex" : t.wait == W_COND ? "waiting on a condition variable" : t.wait == W_JOIN ? "joining" : t.wait == W_FUTEX ? "waiting on an atomic/future" : t.wait == W_SLEEP ? "sleeping" : t.wait == W_ALL ? "done, waiting for the others" : t.wait == W_ONCE ? "waiting for once" : "runnable");
            if (t.wait == W_LOCK && t.wobj && t.wobj->owner >= 0) s += mc::str(" held by T", t.wobj->owner);
            if (t.wait == W_JOIN && t.wthr) s += mc::str(" T", t.wthr->id);
            int shown = 0; for (int d = std::min(t.depth, 128) - 1; d >= 0 && shown < 6; --d) { auto f = fn_of(t.calls[d]); if (f.find("std::") == 0 || f.find("__gnu") == 0 || f == "??") continue; s += (shown++ ? " < " : " in ") + f; }
        }
        return s;
    }
    void requeue_rest();
    void violation_now(std::string const& key, std::string const& msg)
    {
        thr* s = self; self = nullptr; (void)s;
        int k = knownIndex(key);
        if (tracingOn) trace_raw("!! " + key + ": " + msg);
        me->len = u32(std::min<std::size_t>(path.size(), MAXPATH)); for (u32 i = 0; i < me->len; ++i) me->path[i] = path[i];
        if (k >= 0 && !tracingOn) { sh->knownHit[k]++; requeue_rest(); _exit(42); }
        strncpy(me->failKey, key.c_str(), 511); strncpy(me->failMsg, msg.c_str(), 8191); me->failed = 1; sh->stop = 1;
        _exit(0);
    }
    bool nonfatal(std::string const& key, std::string const& msg)
    {
        int k = knownIndex(key);
        if (k >= 0) { sh->knownHit[k]++; return true; }
        violation_now(key, msg);
    }

    // ---- scheduling -----------------------------------------------------------------------------------------------------
    void fwait(std::atomic<u32>& a) { while (a.load(std::memory_order_acquire) == 0) raw_syscall(SYS_futex, (long)&a, FUTEX_WAIT_PRIVATE, 0, 0); a.store(0, std::memory_order_relaxed); }
    void fwake(std::atomic<u32>& a) { a.store(1, std::memory_order_release); raw_syscall(SYS_futex, (long)&a, FUTEX_WAKE_PRIVATE, 1); }

    bool enabled(thr& t)
    {
        if (!t.used || t.finished) return false;
        switch (t.wait)
        {
        case W_NONE: return true;
        case W_LOCK: return t.wobj->owner < 0 || (t.wobj->recursive && t.wobj->owner == t.id);
        case W_COND: return t.woken && t.waitMutex->owner < 0;
        case W_JOIN: return t.wthr->finished;
        case W_FUTEX: return t.woken;
        case W_SLEEP: return t.woken;
        case W_ONCE: return t.wobj->once != 1;
        case W_ALL: { for (int i = 0; i < nT; ++i) if (&T[i] != &t && T[i].used && !T[i].finished) return false; return true; }
        }
        return false;
    }
    bool can_timeout(thr& t) { return t.used && !t.finished && t.timed && !t.woken && (t.wait == W_COND || t.wait == W_FUTEX || t.wait == W_SLEEP || (t.wait == W_LOCK && !enabled(t))); }
    u32 decide(u32 n)   // n affordable options; returns the chosen one
    {
        if (n < 2) return 0;
        if (pruned) return 0;
        std::size_t i = cursor;
        if (i < path.size())
        {
            if (i < arity.size() && arity[i] && arity[i] > n) { fprintf(stderr, "sched: nondeterministic replay at %zu: %u options, had %u\n", i, n, arity[i]); _exit(3); }
            if (path[i] >= n) { fprintf(stderr, "sched: replay choice out of range at %zu: %u of %u\n", i, path[i], n); _exit(3); }
            ++cursor;
            if (arity.size() <= i) { arity.resize(i + 1, 0); arity[i] = i < fixedLen ? path[i] + 1 : u8(n); }
            return path[i];
        }
        if (i >= MAXPATH) violation_now("horizon", "execution exceeded the choice horizon");
        ++cursor; path.push_back(0); arity.resize(i, 0); arity.push_back(u8(n)); me->path[i] = 0; me->len = u32(i + 1);
        return 0;
    }
    bool seen(u64 sig, int cost)
    {
        sig ^= salt; sig &= ~0xffull; if (!sig) sig = 0x100;
        u64 i = (sig * 0x9E3779B97F4A7C15ull) >> (64 - TABLE_BITS);
        for (int n = 0; n < 64; ++n, i = (i + 1) & (TABLE - 1))
        {
            u64 v = table[i].load(std::memory_order_relaxed);
            for (;;)
            {
                if (v == 0) { if (table[i].compare_exchange_strong(v, sig | u64(cost))) { sh->states++; return false; } continue; }
                if ((v & ~0xffull) != sig) break;
                if (int(v & 0xff) <= cost) return true;
                if (table[i].compare_exchange_strong(v, sig | u64(cost))) return false;
            }
        }
        sh->saturated++;
        return false;
    }
    void end_execution() { fwake(execDone); }
    struct option { thr* t; u8 how; u8 cost; };   // how 0 run, 1 timeout, 2 spurious
    // Chooses who runs next; called by the running thread at a scheduling point (its wait state is set).
    thr* pick(bool selfRunnable)
    {
        option o[3 * MAXT]; int n = 0; int left = bound - budgetUsed; thr* s = self ? self : cur;
        for (;;)
        {
            n = 0; int runnable = 0, nonY = 0;
            for (int i = 0; i < nT; ++i) if (enabled(T[i])) { ++runnable; if (!T[i].yielded) ++nonY; }
            int timed = 0; thr* earliest = nullptr; for (int i = 0; i < nT; ++i) if (can_timeout(T[i])) { ++timed; if (!earliest || T[i].deadline < earliest->deadline) earliest = &T[i]; }
            if (runnable && !nonY)
            {   // everybody is spinning: let time pass
                if (++livelockRounds > 3000) violation_now("livelock", "no thread makes progress" + thread_states());
                for (int i = 0; i < nT; ++i) T[i].yielded = false;
                if (earliest) { clockNs = std::max(clockNs, earliest->deadline); o[n++] = { earliest, 1, 0 }; break; }
                clockNs += 1000000;
                // fall through to a plain round-robin step without preferring the current thread
                int start = (s->id + 1) % nT; for (int k = 0; k < nT; ++k) { thr& t = T[(start + k) % nT]; if (enabled(t)) { o[n++] = { &t, 0, 0 }; break; } }
                break;
            }
            bool q = s->quiet > 0 && selfRunnable;
            bool selfOk = selfRunnable && !s->yielded && enabled(*s);
            if (selfOk) o[n++] = { s, 0, 0 };
            if (!(q && selfOk))
            {
                int start = (s->id + 1) % nT;
                for (int k = 0; k < nT; ++k) { thr& t = T[(start + k) % nT]; if (&t != s || !selfOk) if (enabled(t) && !t.yielded) if (!selfOk || left >= 1) o[n++] = { &t, 0, u8(selfOk ? 1 : 0) }; }
                if (runnable) { if (left >= 1 && timeoutsOn) for (int i = 0; i < nT; ++i) if (can_timeout(T[i])) o[n++] = { &T[i], 1, 1 }; }
                else if (earliest) for (int i = 0; i < nT; ++i) if (can_timeout(T[i]) && T[i].deadline == earliest->deadline) o[n++] = { &T[i], 1, 0 };
                if (n && left >= 1 && spuriousOn) for (int i = 0; i < nT; ++i) if (T[i].used && !T[i].finished && T[i].wait == W_COND && !T[i].woken) o[n++] = { &T[i], 2, 1 };
            }
            break;
        }
        if (n == 0)
        {
            bool all = true; for (int i = 0; i < nT; ++i) if (T[i].used && !T[i].finished) all = false;
            if (all) return nullptr;
            violation_now("deadlock", "deadlock: no thread can run" + thread_states());
        }
        if (n > 1 && useTable && !pruned && cursor >= replayLen)
        {
            u64 sig = mix(0x5151, clockNs); for (int i = 0; i < nT; ++i) { thr& t = T[i]; u64 h = mix(t.name, t.hist); h = mix(h, t.yielded | (t.woken << 1) | (t.timedOut << 2) | (t.finished << 3) | (u32(t.wait) << 4)); sig += h; }
            sig = mix(sig, s->name * 2 + (selfRunnable ? 1 : 0));
            if (seen(sig, budgetUsed)) { pruned = true; me->prunedRuns++; }
        }
        u32 c = decide(n);
        budgetUsed += o[c].cost;
        thr* t = o[c].t;
        if (o[c].how)
        {
            if (o[c].how == 1) { clockNs = std::max(clockNs, t->deadline); t->timedOut = true; }
            t->woken = true; if (t->wait == W_LOCK) { t->wait = W_NONE; }
            t->hist = mix(t->hist, 0x717 + o[c].how);
            if (tracingOn) { eng g; trace_raw(mc::str("-- T", t->id, o[c].how == 1 ? (t->wait == W_SLEEP ? " wakes from sleep" : " wait times out") : " wakes spuriously")); }
            if (!enabled(*t)) { return pick(selfRunnable && enabled(*s)); }   // must still get its mutex
        }
        return t;
    }
    void schedule(bool selfRunnable)
    {
        thr* s = self; thr* t = pick(selfRunnable);
        cur = t;
        if (t != s) { if (t) fwake(t->go); fwait(s->go); }
        // s runs again
    }
    const char* label(object* o) { return ""; }
    void trace_op(kind k, object* o, i64 v = 0, bool hasv = false)
    {
        if (!tracingOn) return;
        eng g; thr* self = g.s;
        std::string f; int d = std::min(self->depth, 128) - 1; for (; d >= 0; --d) { f = fn_of(self->calls[d]); if (f.find("std::") != 0 && f.find("__gnu") != 0 && f != "??") break; }
        char id[20] = ""; if (o) snprintf(id, sizeof id, " %04x", unsigned(o->name & 0xffff));
        trace_raw(mc::str("T", self->id, " ", kname[k], id, hasv ? mc::str(" = ", v) : std::string(), f.empty() ? "" : "   in ", f));
    }
    void touch(object* o, bool modifying)
    {
        if (o->lastTid != self->id) { if (o->lastTid >= 0) o->multi = true; o->lastTid = self->id; }
        if (modifying) o->everWrite = true;
        if (o->multi && o->everWrite && !o->known && !o->learned) { o->learned = true; make_shared_obj(o->name); }
    }
    // A scheduling point before an operation on o (may be skipped when the object has never been seen shared).
    void point(object* o, bool force = false)
    {
        if (++steps_ > MAXSTEPS) violation_now("livelock", mc::str("no end after ", MAXSTEPS, " synchronisation operations") + thread_states());
        me->ops.store(me->ops.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
        if (!force && o && !o->known && !self->yielded) { if (is_shared(o->name)) o->known = true; else return; }
        schedule(true);
    }
    void did(kind k, object* o, u64 v, bool modifying)
    {
        self->hist = mix(mix(self->hist, u64(k)), o ? mix(o->version, v) : v);
        if (modifying)
        {
            if (o) o->version = mix(self->hist, o->name);
            ++writeVersion; livelockRounds = 0; self->spin = 0;
            for (int i = 0; i < nT; ++i) if (&T[i] != self) { T[i].yielded = false; T[i].spin = 0; }
        }
        else if (++self->spin >= 12) { self->yielded = true; }
        if (modifying) self->yielded = false;
        if (o) touch(o, modifying);
        self->C.c[self->id]++;
    }
    void acquire(object* o) { self->C.join(o->rel); }
    void release(object* o) { o->rel = self->C; }
    void release_join(object* o) { o->rel.join(self->C); }

    // ---- mutex model -----------------------------------------------------------------------------------------------------
    void note_sync(object* o) { if (!o->isMutex && !o->isCond) syncObjs->push_back(o); }
    object* mtx(void* m) { race_access((uptr)m, 1, false, true, (uptr)__builtin_return_address(0)); object* o = obj((uptr)m); if (!o->isMutex) { note_sync(o); o->isMutex = true; o->recursive = (((pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; } return o; }
    object* cnd(void* c) { race_access((uptr)c, 1, false, true, (uptr)__builtin_return_address(0)); object* o = obj((uptr)c); if (!o->isCond) { note_sync(o); o->isCond = true; } return o; }
    void take(object* o, int depth = 1) { o->owner = self->id; o->depth += depth; acquire(o); }
    int m_lock(void* m, bool timed = false, i64 deadline = 0)
    {
        object* o = mtx(m);
        if (o->owner == self->id && o->recursive) { o->depth++; self->hist = mix(self->hist, 0x10c); return 0; }
        self->wait = W_LOCK; self->wobj = o; self->timed = timed; self->deadline = deadline; self->timedOut = false; self->woken = false;
        bool sharedKnown = o->known || (o->known = is_shared(o->name)); touch(o, false);
        if (sharedKnown || !enabled(*self)) { if (++steps_ > MAXSTEPS) violation_now("livelock", "no end" + thread_states()); me->ops++; schedule(enabled(*self)); }
        self->wait = W_NONE; self->timed = false;
        if (self->timedOut) { self->timedOut = false; did(K_TIMEDLOCK, o, 0, false); trace_op(K_TIMEDLOCK, o, 0, true); return ETIMEDOUT; }
        take(o); did(K_LOCK, o, 0, true); trace_op(K_LOCK, o);
        return 0;
    }
    int m_trylock(void* m)
    {
        object* o = mtx(m); if (!o->tried) { o->tried = true; make_shared_obj(o->name + 1); }
        point(o);
        bool ok = o->owner < 0 || (o->owner == self->id && o->recursive);
        if (ok) { take(o); }
        did(K_TRYLOCK, o, ok, ok); trace_op(K_TRYLOCK, o, ok, true);
        return ok ? 0 : EBUSY;
    }
    int m_unlock(void* m)
    {
        object* o = mtx(m);
        if (o->owner != self->id) violation_now("unlock-not-owner", mc::str("T", self->id, " unlocks a mutex it does not hold (owner ", o->owner, ")") + thread_states());
        if (o->depth > 1) { o->depth--; self->hist = mix(self->hist, 0x20c); return 0; }
        if (is_shared(o->name + 1)) point(o);
        o->depth = 0; o->owner = -1; release(o); did(K_UNLOCK, o, 0, true); trace_op(K_UNLOCK, o);
        return 0;
    }
    int c_wait(void* c, void* m, bool timed, i64 deadline)
    {
        object* co = cnd(c); object* mo = mtx(m);
        if (mo->owner != self->id) violation_now("wait-not-owner", "condition wait without holding the mutex" + thread_states());
        point(co);
        int depth = mo->depth; mo->depth = 0; mo->owner = -1; release(mo); did(K_UNLOCK, mo, 1, true); did(K_CWAIT, co, timed, true); trace_op(K_CWAIT, co);
        self->wait = W_COND; self->wobj = co; self->waitMutex = mo; self->timed = timed; self->deadline = deadline; self->woken = false; self->timedOut = false; self->waitSeq = ++waitSeqNo;
        schedule(false);
        bool to = self->timedOut; self->wait = W_NONE; self->timed = false; self->timedOut = false; self->woken = false;
        mo->owner = self->id; mo->depth = depth; acquire(mo); did(K_LOCK, mo, to, true); trace_op(K_LOCK, mo, to, timed);
        return to ? ETIMEDOUT : 0;
    }
    int c_signal(void* c, bool all)
    {
        object* co = cnd(c); point(co);
        thr* w[MAXT]; int n = 0; for (int i = 0; i < nT; ++i) if (T[i].used && !T[i].finished && T[i].wait == W_COND && T[i].wobj == co && !T[i].woken) w[n++] = &T[i];
        did(all ? K_BROADCAST : K_SIGNAL, co, n, true); trace_op(all ? K_BROADCAST : K_SIGNAL, co, n, true);
        if (n) { if (all) for (int i = 0; i < n; ++i) { w[i]->woken = true; w[i]->hist = mix(w[i]->hist, co->version); } else { u32 k = decide(n); self->hist = mix(self->hist, k); w[k]->woken = true; w[k]->hist = mix(w[k]->hist, co->version); } }
        return 0;
    }
    i64 to_ns(timespec const* t) { return i64(t->tv_sec) * 1000000000 + t->tv_nsec; }
    constexpr i64 REALTIME_OFFSET = 1700000000ll * 1000000000ll, MONO_OFFSET = 1000ll * 1000000000ll;
    i64 abs_deadline(clockid_t c, timespec const* t) { return to_ns(t) - (c == CLOCK_REALTIME ? REALTIME_OFFSET : MONO_OFFSET); }
    void do_sleep(i64 d)
    {
        if (d < 0) d = 0;
        if (++steps_ > MAXSTEPS) violation_now("livelock", "no end" + thread_states());
        self->hist = mix(self->hist, 0x51ee9); trace_op(K_SLEEP, nullptr, d / 1000, true);
        self->wait = W_SLEEP; self->timed = true; self->deadline = clockNs + d; self->woken = false; self->timedOut = false;
        schedule(false);
        self->wait = W_NONE; self->timed = false; self->woken = false; self->timedOut = false;
        did(K_SLEEP, nullptr, clockNs, false); self->spin = 0; self->yielded = false;
    }
    void do_yield() { if (++steps_ > MAXSTEPS) violation_now("livelock", "no end" + thread_states()); trace_op(K_YIELD, nullptr); self->yielded = true; self->hist = mix(self->hist, 0x41e1d); schedule(true); }

    // ---- threads ---------------------------------------------------------------------------------------------------------
    void exit_hook(void* p)
    {
        thr* s = static_cast<thr*>(p);
        s->C.c[s->id]++; s->hist = mix(s->hist, 0xdead); if (tracingOn) { eng g; trace_raw(mc::str("T", s->id, " ends")); }
        s->finished = true; ++writeVersion; for (int i = 0; i < nT; ++i) { T[i].yielded = false; T[i].spin = 0; }
        thr* t = pick(false);
        cur = t; self = nullptr;
        if (t) fwake(t->go); else end_execution();
    }
    // Operating system threads are kept from one execution to the next (one per slot); a logical thread's thread_local objects
    // are destroyed when it ends, and the thread's TLS block gets its initial image back.
    struct tlsdtor { void (*fn)(void*); void* obj; };
    struct osthread { pthread_t tid; bool made; tlsdtor d[64]; int nd; } OS[MAXT];
    struct tlsimage { const char* init; std::size_t filesz, memsz, off; } tlsImg;
    void find_tls()
    {
        dl_iterate_phdr([](dl_phdr_info* i, std::size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { auto& h = i->dlpi_phdr[k]; std::size_t al = std::max<std::size_t>(h.p_align, 1); tlsImg = { (const char*)(i->dlpi_addr + h.p_vaddr), h.p_filesz, h.p_memsz, (h.p_memsz + al - 1) / al * al }; } return 1; }, nullptr); // the first object is the executable
        if (tlsImg.memsz == 0) { fprintf(stderr, "sched: no TLS segment\n"); _exit(3); }
    }
    void* trampoline(void* p)
    {
        int id = int((uptr)p); thr* s = &T[id];
        for (;;)
        {
            fwait(s->go);
            OS[id].nd = 0; self = s;
            s->ret = s->fn(s->arg);
            while (OS[id].nd > 0) { tlsdtor d = OS[id].d[--OS[id].nd]; d.fn(d.obj); }
            char* b = (char*)__builtin_thread_pointer() - tlsImg.off; memcpy(b, tlsImg.init, tlsImg.filesz); memset(b + tlsImg.filesz, 0, tlsImg.memsz - tlsImg.filesz);
            self = s; exit_hook(s);
        }
        return nullptr;
    }
    thr* new_thread(void* (*fn)(void*), void* arg)
    {
        if (nT >= MAXT) { fprintf(stderr, "sched: too many threads\n"); _exit(3); }
        thr& t = T[nT]; int id = nT; memset((void*)&t, 0, sizeof t); t.id = id; t.used = true; t.fn = fn; t.arg = arg; t.name = self ? mix(self->name, ++self->children) : 0xABCDEF; t.hist = self ? mix(self->hist, 5) : 1;
        if (self) { t.C = self->C; self->C.c[self->id]++; self->hist = mix(self->hist, 0xc8ea7e); }
        t.C.c[id] = 1; t.stackBase = stacks + STACK * (id + 1);
        ++nT;
        if (!OS[id].made)
        {
            if (!tlsImg.memsz) find_tls();
            pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stacks + STACK * id, STACK);
            thr* s = self; self = nullptr;
            int r = REAL(pthread_create)(&OS[id].tid, &a, trampoline, (void*)(uptr)id); pthread_attr_destroy(&a);
            self = s;
            if (r) { fprintf(stderr, "sched: pthread_create failed %d\n", r); _exit(3); }
            OS[id].made = true;
        }
        t.real = OS[id].tid;
        return &t;
    }
    mc::scenario const* curScenario; bool leakMode = false; int execs_extra = 0;
    void* main_body(void*)
    {
        try { curScenario->body(); }
        catch (mc::violation const& v) { violation_now(v.key, v.message); }
        catch (mc::prune const&) { }
        catch (std::exception const& e) { violation_now(std::string("exception:") + typeid(e).name(), std::string("unexpected exception: ") + e.what()); }
        catch (...) { violation_now("exception:unknown", "unexpected exception"); }
        self->wait = W_ALL; schedule(enabled(*self)); self->wait = W_NONE;
        return nullptr;
    }
    void on_terminate() { std::string n = "none"; if (auto t = abi::__cxa_current_exception_type()) { int st; char* d = abi::__cxa_demangle(t->name(), 0, 0, &st); n = d ? d : t->name(); } for (auto& c : n) if (c == ' ') c = '_'; if (inExecution) violation_now("terminate:" + n, "std::terminate called" + thread_states()); _exit(79); }
    void on_signal(int sig) { if (inExecution) { std::string st; if (self) for (int d = std::min(self->depth, 128) - 1, k = 0; d >= 0 && k < 8; --d, ++k) st += " < " + fn_of(self->calls[d]); violation_now(mc::str("signal-", sig), mc::str("process receives signal ", sig, " (", strsignal(sig), ")", st)); } _exit(80); }

    bool warm = false;
    void execute(mc::scenario const& s)
    {
        ++execNo; objCount = 0; shCount = 0; syncObjs->clear(); logSteps.clear(); nT = 0; cursor = 0; replayLen = path.size(); budgetUsed = 0; pruned = false; clockNs = 0; writeVersion = 0; steps_ = 0; livelockRounds = 0; waitSeqNo = 0; spuriousOn = timeoutsOn = true; allowLeaks = false; hwThreads = 2;
        if (liveInExec == 0 && nBlocks > blocksBase) { arenaTop = topBase; nBlocks = blocksBase; }
        else { blocksBase = nBlocks; topBase = arenaTop; if (arenaTop > ARENA_SIZE * 3 / 4) { fprintf(stderr, "sched: arena exhausted\n"); _exit(3); } }
        liveInExec = 0; curScenario = &s; inExecution = true;
        me->len = u32(std::min<std::size_t>(path.size(), MAXPATH)); for (u32 i = 0; i < me->len; ++i) me->path[i] = path[i];
        me->running = 1;
        self = nullptr; thr* t = new_thread(main_body, nullptr); cur = t;
        fwake(t->go); fwait(execDone);
        inExecution = false; me->running = 0; me->execs++; sh->nSchedules++;
        if (cursor < replayLen && !pruned) { fprintf(stderr, "sched: replay shorter than its path (%zu of %zu)\n", cursor, replayLen); _exit(3); }
        if (liveInExec > 0 && warm && !allowLeaks && !leakMode)
        {   // perhaps a lazily initialised global: a real leak repeats
            leakMode = true; std::size_t fp = path.size(); bool pr = pruned; auto ar = arity; bool ut = useTable; useTable = false; int keep = execs_extra; execute(s); execs_extra = keep; useTable = ut; leakMode = false; if (!pr) { } path.resize(fp); arity = ar; pruned = pr;
        }
        if (liveInExec > 0 && warm && !allowLeaks && !leakMode)
        {
            std::string m; int k = 0; for (u32 b = blocksBase; b < nBlocks && k < 4; ++b) if (!blocks[b].freed && blocks[b].exec == execNo) { m += mc::str(k++ ? "; " : "", blocks[b].size, " bytes allocated at ", where(blocks[b].allocPc)); }
            nonfatal("leak", mc::str(liveInExec, " heap block(s) are never freed: ", m));
        }
        if (path.size() > me->maxPath) me->maxPath = u32(path.size());
    }
    bool advance(std::size_t fixed)
    {
        std::size_t i = path.size();
        while (i > fixed) { --i; if (path[i] + 1u < arity[i]) { ++path[i]; path.resize(i + 1); arity.resize(i + 1); return true; } }
        return false;
    }
    bool push_job(std::vector<u8> const& p, std::size_t n, u8 last, u32 fixed)
    {
        if (n + 1 > MAXPATH) return false;
        qlock(); bool ok = sh->qn < QCAP; if (ok) { job& j = sh->q[sh->qn++]; j.fixed = fixed; j.len = u32(n + 1); memcpy(j.path, p.data(), n); j.path[n] = last; } qunlock(); return ok;
    }
    void donate(std::size_t fixed)
    {
        for (std::size_t i = fixed; i < path.size(); ++i) if (path[i] + 1u < arity[i])
        {
            while (path[i] + 1u < arity[i]) { if (!push_job(path, i, u8(arity[i] - 1), u32(i + 1))) return; --arity[i]; }
            return;
        }
    }
    void requeue_rest()   // the process must be replaced: hand everything that is left to the queue
    {
        for (std::size_t i = fixedLen; i < path.size(); ++i) while (i < arity.size() && path[i] + 1u < arity[i]) { if (!push_job(path, i, u8(arity[i] - 1), u32(i + 1))) { fprintf(stderr, "sched: queue full\n"); _exit(3); } --arity[i]; }
    }
    std::string jstr(std::string const& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
    void install_handlers()
    {
        std::set_terminate(on_terminate);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
        for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    }
}

// ---- heap ------------------------------------------------------------------------------------------------------------------
static bool inMain = false;   // from here on, what the engine itself allocates comes from malloc
static void* a_alloc(std::size_t n, std::size_t align, uptr pc)
{
    if (!self && inMain) { void* r = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1); if (!r) _exit(3); return r; }
    arena_init();
    std::size_t al = std::max<std::size_t>(align, 16); uptr p = ((uptr)arena + arenaTop + al - 1) / al * al; std::size_t span = (std::max<std::size_t>(n, 1) + 15) / 16 * 16;
    if (p + span + 16 > (uptr)arena + ARENA_SIZE) { fprintf(stderr, "sched: arena full\n"); _exit(3); }
    u32 b = nBlocks++; block& k = blocks[b]; k.start = p; k.size = n; k.freed = false; k.exec = execNo; k.allocPc = pc; k.name = self ? mix(self->name + 3, ++self->allocs) : mix(0x57a71c, b);
    for (uptr g = (uptr)arena + arenaTop; g < p; g += 16) blockOf[(g - (uptr)arena) >> 4] = 0;
    for (std::size_t i = 0; i < span / 16; ++i) blockOf[((p - (uptr)arena) >> 4) + i] = b;
    blockOf[(p + span - (uptr)arena) >> 4] = 0;
    arenaTop = p + span + 16 - (uptr)arena; memset((void*)p, 0xA5, n);
    k.counted = self != nullptr; if (self) ++liveInExec; ++liveNow;
    return (void*)p;
}
static bool engine_made(uptr) { return true; }
static void a_free(void* q, uptr pc)
{
    if (!q) return;
    uptr a = (uptr)q; if (!in_arena(a)) { if (!self || engine_made(a)) { free(q); return; } if (inExecution) violation_now("bad-delete", "operator delete of a pointer that is not from operator new"); return; }
    block& k = blocks[blockOf[(a - (uptr)arena) >> 4]];
    if (k.start != a) { if (inExecution) violation_now("bad-delete", "operator delete of a pointer that is not the start of a block at " + where(pc)); return; }
    if (k.freed) { if (inExecution) violation_now("double-free", mc::str("block deleted twice: ", where(pc), " and before ", where(k.freePc))); return; }
    if (self)
    {
        race_access(a, std::max<std::size_t>(1, std::min<std::size_t>(k.size, 4096)), true, false, pc);
        for (object* o : *syncObjs) if (o->addr >= a && o->addr < a + k.size)
        {
            if (o->isMutex && o->owner >= 0) nonfatal("destroyed-locked-mutex", mc::str("a mutex is destroyed while T", o->owner, " holds it; freed at ", where(pc)) + thread_states());
            for (int i = 0; i < nT; ++i) if (T[i].used && !T[i].finished && T[i].wait != W_NONE && T[i].wobj == o && !(T[i].wait == W_COND && T[i].woken)) nonfatal("destroyed-while-waiting", mc::str("a mutex or condition variable is destroyed while T", i, " waits on it; freed at ", where(pc)) + thread_states());
        }
    }
    k.freed = true; k.freePc = pc; --liveNow; if (k.exec == execNo && k.counted) --liveInExec;
}
#define PC ((uptr)__builtin_return_address(0))
void* operator new(std::size_t n) { return a_alloc(n, 16, PC); }
void* operator new[](std::size_t n) { return a_alloc(n, 16, PC); }
void* operator new(std::size_t n, std::align_val_t a) { return a_alloc(n, std::size_t(a), PC); }
void* operator new[](std::size_t n, std::align_val_t a) { return a_alloc(n, std::size_t(a), PC); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return a_alloc(n, 16, PC); }
void operator delete(void* p) noexcept { a_free(p, PC); }
void operator delete[](void* p) noexcept { a_free(p, PC); }
void operator delete(void* p, std::size_t) noexcept { a_free(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { a_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { a_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { a_free(p, PC); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { a_free(p, PC); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { a_free(p, PC); }
unsigned int std::thread::hardware_concurrency() noexcept { return hwThreads; }

// ---- interposed C library ----------------------------------------------------------------------------------------------------
#define MANAGED(a) (self && modelled((uptr)(a)))
extern "C"
{
    int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
    {
        if (!self) return REAL(pthread_create)(t, a, fn, arg);
        thr* n = new_thread(fn, arg); *t = n->real; trace_op(K_CREATE, nullptr, n->id, true);
        return 0;
    }
    int pthread_join(pthread_t t, void** r)
    {
        if (!self) return REAL(pthread_join)(t, r);
        thr* n = nullptr; for (int i = 0; i < nT; ++i) if (T[i].real == t && T[i].used && !T[i].joined) n = &T[i];
        if (!n || n->detached) return ESRCH;
        if (n == self) return EDEADLK;
        self->wait = W_JOIN; self->wthr = n; if (++steps_ > MAXSTEPS) violation_now("livelock", "no end" + thread_states());
        schedule(enabled(*self)); self->wait = W_NONE;
        n->joined = true; self->C.join(n->C); self->hist = mix(self->hist, n->hist); self->C.c[self->id]++; trace_op(K_JOIN, nullptr, n->id, true);
        if (r) *r = n->ret;
        return 0;
    }
    int pthread_detach(pthread_t t) { if (!self) return REAL(pthread_detach)(t); for (int i = 0; i < nT; ++i) if (T[i].real == t && !T[i].joined) T[i].detached = true; return 0; }
    int pthread_mutex_lock(pthread_mutex_t* m) { return MANAGED(m) ? m_lock(m) : REAL(pthread_mutex_lock)(m); }
    int pthread_mutex_trylock(pthread_mutex_t* m) { return MANAGED(m) ? m_trylock(m) : REAL(pthread_mutex_trylock)(m); }
    int pthread_mutex_unlock(pthread_mutex_t* m) { return MANAGED(m) ? m_unlock(m) : REAL(pthread_mutex_unlock)(m); }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return MANAGED(m) ? m_lock(m, true, abs_deadline(CLOCK_REALTIME, t)) : REAL(pthread_mutex_timedlock)(m, t); }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { return MANAGED(m) ? m_lock(m, true, abs_deadline(c, t)) : REAL(pthread_mutex_clocklock)(m, c, t); }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (MANAGED(c)) return c_wait(c, m, false, 0); return real_fn(real_pthread_cond_wait, "pthread_cond_wait", "GLIBC_2.3.2")(c, m); }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (MANAGED(c)) return c_wait(c, m, true, abs_deadline(CLOCK_REALTIME, t)); return real_fn(real_pthread_cond_timedwait, "pthread_cond_timedwait", "GLIBC_2.3.2")(c, m, t); }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (MANAGED(c)) return c_wait(c, m, true, abs_deadline(k, t)); return REAL(pthread_cond_clockwait)(c, m, k, t); }
    int pthread_cond_signal(pthread_cond_t* c) { if (MANAGED(c)) return c_signal(c, false); return self ? 0 : REAL(pthread_cond_signal)(c); }
    int pthread_cond_broadcast(pthread_cond_t* c) { if (MANAGED(c)) return c_signal(c, true); return self ? 0 : REAL(pthread_cond_broadcast)(c); }
    int pthread_cond_destroy(pthread_cond_t* c)
    {
        if (MANAGED(c)) { object* o = cnd(c); for (int i = 0; i < nT; ++i) if (T[i].used && !T[i].finished && T[i].wait == W_COND && T[i].wobj == o && !T[i].woken) nonfatal("destroyed-while-waiting", mc::str("a condition variable is destroyed while T", i, " waits on it") + thread_states()); }
        return 0;
    }
    int pthread_mutex_destroy(pthread_mutex_t* m) { if (MANAGED(m)) { object* o = mtx(m); if (o->owner >= 0) nonfatal("destroyed-locked-mutex", "a mutex is destroyed while locked" + thread_states()); o->isMutex = false; } return 0; }
    int pthread_once(pthread_once_t* c, void (*fn)())
    {
        if (!MANAGED(c)) return REAL(pthread_once)(c, fn);
        object* o = obj((uptr)c); if (*c == 2) { o->once = 2; }   // 2: done in an earlier execution of this object
        self->wait = W_ONCE; self->wobj = o; if (o->once == 1 || is_shared(o->name)) schedule(enabled(*self)); self->wait = W_NONE;
        if (o->once == 2) { acquire(o); did(K_ONCE, o, 2, false); self->spin = 0; return 0; }
        o->once = 1; did(K_ONCE, o, 1, true);
        struct undo { object* o; pthread_once_t* c; bool ok = false; ~undo() { o->once = ok ? 2 : 0; *c = ok ? 2 : 0; release(o); did(K_ONCE, o, 3, true); } } u{ o, c };
        fn(); u.ok = true;
        return 0;
    }
    int __cxa_guard_acquire(u64* g)
    {
        if (!self) { if (*(u8*)g) return 0; ((u8*)g)[1] = 1; return 1; }
        object* o = obj((uptr)g); if (*(u8*)g) { acquire(o); return 0; }
        self->wait = W_ONCE; self->wobj = o; o->once = ((u8*)g)[1] ? 1 : 0; if (o->once == 1 || is_shared(o->name)) schedule(enabled(*self)); self->wait = W_NONE;
        if (*(u8*)g) { acquire(o); did(K_ONCE, o, 2, false); self->spin = 0; return 0; }
        ((u8*)g)[1] = 1; o->once = 1; did(K_ONCE, o, 1, true); return 1;
    }
    int __cxa_thread_atexit(void (*fn)(void*), void* o, void* dso) noexcept { if (!self) return __cxa_thread_atexit_impl(fn, o, dso); auto& os = OS[self->id]; if (os.nd >= 64) { fprintf(stderr, "sched: too many thread_local destructors\n"); _exit(3); } os.d[os.nd++] = { fn, o }; return 0; }
    void pthread_exit(void* r) { if (self) { fprintf(stderr, "sched: pthread_exit is not supported\n"); _exit(3); } REAL(pthread_exit)(r); __builtin_unreachable(); }
    void __cxa_guard_release(u64* g) { ((u8*)g)[1] = 0; *(u8*)g = 1; if (self) { object* o = obj((uptr)g); o->once = 2; release(o); did(K_ONCE, o, 3, true); } }
    void __cxa_guard_abort(u64* g) { ((u8*)g)[1] = 0; if (self) { object* o = obj((uptr)g); o->once = 0; release(o); did(K_ONCE, o, 4, true); } }
    int sched_yield() { if (!self) return REAL(sched_yield)(); do_yield(); return 0; }
    int nanosleep(const timespec* t, timespec* r) { if (!self) return REAL(nanosleep)(t, r); do_sleep(to_ns(t)); return 0; }
    int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* r) { if (!self) return REAL(clock_nanosleep)(c, flags, t, r); do_sleep(flags & TIMER_ABSTIME ? abs_deadline(c, t) - clockNs : to_ns(t)); return 0; }
    int usleep(useconds_t u) { if (!self) return REAL(usleep)(u); do_sleep(i64(u) * 1000); return 0; }
    int clock_gettime(clockid_t c, timespec* t) noexcept
    {
        if (!self) return int(raw_syscall(SYS_clock_gettime, c, (long)t));
        i64 v = clockNs + (c == CLOCK_REALTIME ? REALTIME_OFFSET : MONO_OFFSET);
        self->hist = mix(self->hist, clockNs); if (++self->spin >= 12) self->yielded = true;
        t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
    }
    static long do_futex(u32* a, int op, u32 val, const timespec* to, u32 bits)
    {
        int cmd = op & 0x7f; bool rt = op & FUTEX_CLOCK_REALTIME;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            race_access((uptr)a, 4, false, true, PC);
            object* o = obj((uptr)a); point(o);
            u32 v = *a; did(K_FWAIT, o, v, false); trace_op(K_FWAIT, o, v, true); self->spin = 0; self->yielded = false;
            if (v != val) { errno = EAGAIN; return -1; }
            self->wait = W_FUTEX; self->wobj = o; self->timed = to != nullptr; self->deadline = to ? (cmd == FUTEX_WAIT ? clockNs + to_ns(to) : abs_deadline(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, to)) : 0; self->woken = false; self->timedOut = false;
            schedule(false);
            bool t = self->timedOut; self->wait = W_NONE; self->timed = self->timedOut = self->woken = false;
            self->hist = mix(self->hist, t);
            if (t) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        {
            object* o = obj((uptr)a); point(o); thr* w[MAXT]; int n = 0; for (int i = 0; i < nT; ++i) if (T[i].used && !T[i].finished && T[i].wait == W_FUTEX && T[i].wobj == o && !T[i].woken) w[n++] = &T[i];
            did(K_FWAKE, o, n, true); trace_op(K_FWAKE, o, n, true);
            int k = 0; for (; k < n && u32(k) < val; ++k) { u32 c = u32(n - k) > val ? decide(n - k) : 0; thr* x = w[k + c]; std::swap(w[k], w[k + c]); self->hist = mix(self->hist, c); x->woken = true; x->hist = mix(x->hist, o->version); }
            return k;
        }
        fprintf(stderr, "sched: unsupported futex operation %d\n", op); _exit(3);
    }
    long syscall(long n, ...) noexcept
    {
        va_list l; va_start(l, n); long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long); va_end(l);
        if (n == SYS_futex && self && modelled((uptr)a)) return do_futex((u32*)a, int(b), u32(c), (const timespec*)d, u32(f));
        long r = raw_syscall(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = int(-r); return -1; } return r;
    }

    // ---- __tsan_* runtime ------------------------------------------------------------------------------------------------------
    void __tsan_init() {}
    void __tsan_func_entry(void* pc) { if (self) { if (self->depth < 128) self->calls[self->depth] = (uptr)pc; ++self->depth; } }
    void __tsan_func_exit() { if (self) --self->depth; }
    #define RD(n) void __tsan_read##n(void* a) { if (self) race_access((uptr)a, n, false, false, PC); } void __tsan_write##n(void* a) { if (self) race_access((uptr)a, n, true, false, PC); } \
        void __tsan_unaligned_read##n(void* a) { if (self) race_access((uptr)a, n, false, false, PC); } void __tsan_unaligned_write##n(void* a) { if (self) race_access((uptr)a, n, true, false, PC); } \
        void __tsan_volatile_read##n(void* a) { if (self) race_access((uptr)a, n, false, false, PC); } void __tsan_volatile_write##n(void* a) { if (self) race_access((uptr)a, n, true, false, PC); }
    RD(1) RD(2) RD(4) RD(8) RD(16)
    void __tsan_read_range(void* a, unsigned long n) { if (self && n) race_access((uptr)a, n, false, false, PC); }
    void __tsan_write_range(void* a, unsigned long n) { if (self && n) race_access((uptr)a, n, true, false, PC); }
    void __tsan_vptr_update(void** p, void* v) { if (self && *p != v) race_access((uptr)p, 8, true, false, PC); }
    void __tsan_vptr_read(void** p) { if (self) race_access((uptr)p, 8, false, false, PC); }
    void __tsan_atomic_thread_fence(int mo)
    {
        if (!self) return;
        if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME) self->C.join(self->acqPending);
        if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { self->relFence = self->C; self->hasRelFence = true; self->C.c[self->id]++; }
    }
    void __tsan_atomic_signal_fence(int) {}
}
static bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
template <typename X> static u64 asu(X v) { u64 r = 0; memcpy(&r, &v, std::min(sizeof r, sizeof v)); return r; }
template <typename X> static X at_load(const volatile X* a, int mo, uptr pc)
{
    if (!self || !modelled((uptr)a)) return *a;
    race_access((uptr)a, sizeof(X), false, true, pc); object* o = obj((uptr)a); point(o);
    if (in_arena((uptr)a)) check_block((uptr)a, sizeof(X), false, pc);
    X v = *a; if (isAcq(mo)) acquire(o); else self->acqPending.join(o->rel);
    did(K_LOAD, o, asu(v), false); trace_op(K_LOAD, o, i64(asu(v)), true); return v;
}
template <typename X> static void at_store(volatile X* a, X v, int mo, uptr pc)
{
    if (!self || !modelled((uptr)a)) { *a = v; return; }
    race_access((uptr)a, sizeof(X), true, true, pc); object* o = obj((uptr)a); point(o);
    if (in_arena((uptr)a)) check_block((uptr)a, sizeof(X), true, pc);
    bool changed = *a != v; *a = v; if (isRel(mo)) release(o); else if (self->hasRelFence) o->rel = self->relFence; else memset(&o->rel, 0, sizeof o->rel);
    u32 sp = self->spin; did(K_STORE, o, asu(v), true); if (!changed) self->spin = sp; trace_op(K_STORE, o, i64(asu(v)), true);
}
template <typename X, typename F> static X at_rmw(volatile X* a, int mo, uptr pc, F f)
{
    if (!self || !modelled((uptr)a)) { X v = *a; *a = f(v); return v; }
    race_access((uptr)a, sizeof(X), true, true, pc); object* o = obj((uptr)a); point(o);
    if (in_arena((uptr)a)) check_block((uptr)a, sizeof(X), true, pc);
    X v = *a, n = f(v); *a = n;
    if (isAcq(mo)) acquire(o); else self->acqPending.join(o->rel);
    if (isRel(mo)) release_join(o); else if (self->hasRelFence) o->rel.join(self->relFence);
    did(K_RMW, o, asu(n), n != v || false); if (n == v) { o->everWrite = true; touch(o, true); } trace_op(K_RMW, o, i64(asu(n)), true); return v;
}
template <typename X> static bool at_cas(volatile X* a, X* e, X d, int mo, int fmo, uptr pc)
{
    if (!self || !modelled((uptr)a)) { if (*a == *e) { *a = d; return true; } *e = *a; return false; }
    race_access((uptr)a, sizeof(X), true, true, pc); object* o = obj((uptr)a); point(o);
    if (in_arena((uptr)a)) check_block((uptr)a, sizeof(X), true, pc);
    X v = *a; bool ok = v == *e;
    if (ok) { *a = d; if (isAcq(mo)) acquire(o); else self->acqPending.join(o->rel); if (isRel(mo)) release_join(o); else if (self->hasRelFence) o->rel.join(self->relFence); }
    else { *e = v; if (isAcq(fmo)) acquire(o); else self->acqPending.join(o->rel); }
    did(K_RMW, o, asu(ok ? d : v) * 2 + ok, ok); touch(o, true); trace_op(K_RMW, o, i64(asu(ok ? d : v)), true);
    return ok;
}
extern "C"
{
    #define AT(bits, X) \
    X __tsan_atomic##bits##_load(const volatile X* a, int mo) { return at_load<X>(a, mo, PC); } \
    void __tsan_atomic##bits##_store(volatile X* a, X v, int mo) { at_store<X>(a, v, mo, PC); } \
    X __tsan_atomic##bits##_exchange(volatile X* a, X v, int mo) { return at_rmw<X>(a, mo, PC, [=](X) { return v; }); } \
    X __tsan_atomic##bits##_fetch_add(volatile X* a, X v, int mo) { return at_rmw<X>(a, mo, PC, [=](X o) { return X(o + v); }); } \
    X __tsan_atomic##bits##_fetch_sub(volatile X* a, X v, int mo) { return at_rmw<X>(a, mo, PC, [=](X o) { return X(o - v); }); } \
    X __tsan_atomic##bits##_fetch_and(volatile X* a, X v, int mo) { return at_rmw<X>(a, mo, PC, [=](X o) { return X(o & v); }); } \
    X __tsan_atomic##bits##_fetch_or(volatile X* a, X v, int mo) { return at_rmw<X>(a, mo, PC, [=](X o) { return X(o | v); }); } \
    X __tsan_atomic##bits##_fetch_xor(volatile X* a, X v, int mo) { return at_rmw<X>(a, mo, PC, [=](X o) { return X(o ^ v); }); } \
    X __tsan_atomic##bits##_fetch_nand(volatile X* a, X v, int mo) { return at_rmw<X>(a, mo, PC, [=](X o) { return X(~(o & v)); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile X* a, X* e, X d, int mo, int fmo) { return at_cas<X>(a, e, d, mo, fmo, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile X* a, X* e, X d, int mo, int fmo) { return at_cas<X>(a, e, d, mo, fmo, PC); } \
    X __tsan_atomic##bits##_compare_exchange_val(volatile X* a, X e, X d, int mo, int fmo) { at_cas<X>(a, &e, d, mo, fmo, PC); return e; }
    AT(8, u8) AT(16, std::uint16_t) AT(32, u32) AT(64, u64)
    typedef unsigned __int128 u128;
    AT(128, u128)
}

// ---- API -------------------------------------------------------------------------------------------------------------------
namespace conc
{
    void step(int w) { if (!self) return; static char tag; object* o = obj((uptr)&tag); point(o); logSteps.push_back(w); did(K_EVENT, o, u64(w), true); trace_op(K_EVENT, nullptr, w, true); }
    std::vector<int> const& steps() { return logSteps; }
    void hw(unsigned n) { hwThreads = n; }
    void allow_leaks() { allowLeaks = true; }
    void no_spurious() { spuriousOn = false; }
    void no_timeouts() { timeoutsOn = false; }
    std::int64_t now_ns() { return clockNs; }
    void advance_ns(std::int64_t d) { clockNs += d; if (self) self->hist = mix(self->hist, d); }
    quiet::quiet() { if (self) ++self->quiet; }
    quiet::~quiet() { if (self) --self->quiet; }
    static thread_local thr* guarded; engine_guard::engine_guard() { if (self) { guarded = self; self = nullptr; mine = true; } } engine_guard::~engine_guard() { if (mine) self = guarded; }
    int tid() { return self ? self->id : -1; }
    bool others_blocked() { for (int i = 0; i < nT; ++i) if (&T[i] != self && enabled(T[i])) return false; return true; }
}
namespace mc
{
    std::uint32_t choose(std::uint32_t n, const char*) { if (n == 0) throw prune{}; u32 c = decide(n); if (self) self->hist = mix(self->hist, c + 1000); return c; }
    bool fresh() { return true; }
    bool tracing() { return tracingOn; }
    void trace_line(std::string const& s) { trace_raw(s); }
    void fail(std::string const& key, std::string const& message) { self = nullptr; violation_now(dashed(key), message); }
    void elem::fail_dead() const { violation_now("dead-element", "use of an element that is not alive"); }
    void state(std::uint64_t) {} void op() {} void validated() { me->validatedRuns++; } void checkpoint(std::uint64_t) {}
    int tier(int q, int t) { return thoroughTier ? t : q; }
    bool thorough() { return thoroughTier; }
    std::size_t live_blocks() { return std::size_t(liveNow); }
    std::uint64_t heap_hash(std::vector<root> const&, bool) { return 0; }
    std::vector<scenario>& scenarios() { static std::vector<scenario> s; return s; }
}
using namespace mc;

struct cresult { std::string status, key, message; std::vector<u8> path; };
static void pin(int k)
{
    cpu_set_t all; if (sched_getaffinity(0, sizeof all, &all)) return; std::vector<int> c; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all)) c.push_back(i);
    if (c.empty()) return; cpu_set_t one; CPU_ZERO(&one); CPU_SET(c[k % c.size()], &one); sched_setaffinity(0, sizeof one, &one);
}
static void enter_process() { warm = false; arena_init(); sh_ = (shadow*)mmap(nullptr, sizeof(shadow) * SHS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (!syncObjs) syncObjs = new std::vector<object*>; install_handlers(); execNo += 1; blocksBase = nBlocks; topBase = arenaTop; liveInExec = 0; __libc_single_threaded = 0; path.reserve(MAXPATH); arity.reserve(MAXPATH); logSteps.reserve(1000); syncObjs->reserve(1000); }
static void warm_up(scenario const& s)
{   // lets lazily initialised globals come into being, on the default schedule
    auto p = path, a = arity; int b = bound; auto f = fixedLen; bool ut = useTable, tr = tracingOn; bound = 0; path.clear(); arity.clear(); fixedLen = 0; useTable = false; tracingOn = false;
    execute(s); path = p; arity = a; path.reserve(MAXPATH); arity.reserve(MAXPATH); bound = b; fixedLen = f; useTable = ut; tracingOn = tr; warm = true; liveInExec = 0; blocksBase = nBlocks; topBase = arenaTop; nBlocks = blocksBase;
}
static cresult run_confined(scenario const& s, std::vector<u8> const& p, int bnd, double limit, std::vector<std::string>* trace, std::string* err)
{
    slot* w = shmem<slot>(1); int fd[2], ed[2]; if (pipe(fd) || pipe(ed)) _exit(3);
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); close(ed[0]); dup2(ed[1], 2); dup2(ed[1], 1); pin(0);
        me = w; enter_process(); useTable = false; bound = 0; fixedLen = 0; path.clear(); tracingOn = false;
        warm_up(s); path = p; path.reserve(MAXPATH); bound = bnd; tracingOn = trace != nullptr; traceFd = fd[1]; execute(s);
        _exit(0);
    }
    close(fd[1]); close(ed[1]); fcntl(fd[0], F_SETFL, O_NONBLOCK); fcntl(ed[0], F_SETFL, O_NONBLOCK);
    double t0 = now(); int st = 0; bool hung = false; std::string to, te; static char b[65536];
    for (;;)
    {
        ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) to.append(b, n); while ((n = read(ed[0], b, sizeof b)) > 0) if (te.size() < 200000) te.append(b, n);
        if (waitpid(c, &st, WNOHANG) == c) break;
        if (now() - t0 > limit) { kill(c, SIGKILL); waitpid(c, &st, 0); hung = true; break; }
        usleep(500);
    }
    ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) to.append(b, n); while ((n = read(ed[0], b, sizeof b)) > 0) te.append(b, n);
    close(fd[0]); close(ed[0]);
    if (trace) { std::istringstream is(to); std::string l; while (std::getline(is, l)) trace->push_back(l); }
    if (err) *err = te;
    cresult r; r.path.assign(w->path, w->path + w->len); r.status = "ok";
    if (hung) { r.status = "hang"; r.key = "hang"; r.message = "execution did not finish"; }
    else if (w->failed) { r.status = "violation"; r.key = w->failKey; r.message = w->failMsg; }
    else if (WIFSIGNALED(st)) { r.status = "crash"; r.key = str("signal-", WTERMSIG(st)); r.message = "process died"; }
    else if (WEXITSTATUS(st) == 3) { r.status = "internal"; r.message = te; }
    else if (WEXITSTATUS(st)) { r.status = "crash"; r.key = str("exit-", WEXITSTATUS(st)); r.message = te; }
    munmap(w, sizeof(slot));
    return r;
}

int main(int argc, char** argv)
{
    inMain = true; arena_init();
    std::string out, replay, replayDir = ".", only, tierName = "quick"; int jobs = 8; double budget = 1e9; std::string knownFile;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--out") out = next(); else if (a == "--replay") replay = next(); else if (a == "--replay-dir") replayDir = next();
        else if (a == "--tier") tierName = next(); else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--only") only = next(); else if (a == "--known") knownFile = next();
        else if (a == "--list") { for (auto& s : scenarios()) printf("%s\n", s.name.c_str()); return 0; }
    }
    thoroughTier = tierName == "thorough";
    if (!knownFile.empty()) { std::ifstream f(knownFile); std::string l; while (std::getline(f, l)) if (!l.empty()) known.push_back(l); }
    sh = shmem<shared_t>(1); table = shmem<std::atomic<u64>>(TABLE); me = shmem<slot>(1);
    signal(SIGPIPE, SIG_IGN);
    auto load_shared = [&](std::istream& f) { std::size_t n; f >> n; for (std::size_t i = 0; i < n; ++i) { u64 v; f >> v; make_shared_obj(v); } for (std::size_t i = 0; i < (1u << 16); ++i) sh->frozen[i] = sh->sharedSet[i].load(); };
    if (!replay.empty())
    {
        std::ifstream f(replay); std::string tag, name, tn; std::vector<u8> p; int bnd = 0;
        while (f >> tag) { if (tag == "scenario") f >> name; else if (tag == "tier") { f >> tn; thoroughTier = tn == "thorough"; } else if (tag == "bound") f >> bnd; else if (tag == "shared") load_shared(f); else if (tag == "path") { std::size_t n; f >> n; for (std::size_t i = 0; i < n; ++i) { int v; f >> v; p.push_back(u8(v)); } break; } }
        for (auto& s : scenarios()) if (s.name == name)
        {
            std::vector<std::string> t; std::string e; auto r = run_confined(s, p, bnd, 120, &t, &e);
            for (auto& l : t) printf("  %s\n", l.c_str());
            if (!e.empty()) printf("%s\n", e.c_str());
            printf("replay: %s %s %s\n", r.status.c_str(), r.key.c_str(), r.message.c_str());
            return r.status == "ok" ? 0 : r.status == "internal" ? 3 : 1;
        }
        fprintf(stderr, "no scenario %s\n", name.c_str()); return 3;
    }
    double t0 = now(); bool complete = true; int violations = 0, internal = 0; std::ostringstream js; js << "{\"scenarios\":["; bool firstS = true;
    u64 totE = 0, totO = 0, totV = 0, totS = 0; std::vector<std::string> samples;
    for (std::size_t si = 0; si < scenarios().size(); ++si)
    {
        auto& s = scenarios()[si]; if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        double ts = now(); int B = thoroughTier ? s.depthThorough : s.depthQuick; bool timedOut = false; std::vector<std::pair<std::vector<u8>, std::string>> bad; int badBound = 0;
        u64 scE = 0, scO = 0, scSt = 0, scV = 0, scP = 0; u32 maxPath = 0; int phase = 0, completedBound = -1; sh->sharedObjs = 0; for (auto& x : sh->sharedSet) if (x) x = 0;
        u64 lastE = 0, lastSt = 0;
        for (int b = 0; b <= B && bad.empty() && !timedOut && !internal;)
        {
            ++phase; for (std::size_t i = 0; i < (1u << 16); ++i) sh->frozen[i] = sh->sharedSet[i].load(); salt = mix(si * 1000 + phase, 99); sh->stop = 0; sh->idle = 0; sh->qn = 0; sh->grew = 0; u64 st0 = sh->states; bound = b;
            { job& j = sh->q[0]; j.fixed = 0; j.len = 0; sh->qn = 1; }
            int W = b == 0 ? 1 : jobs; sh->workers = W; std::vector<slot*> w; for (int k = 0; k < W; ++k) w.push_back(shmem<slot>(1));
            std::vector<pid_t> pids(W, 0); std::vector<double> last(W, now()); std::vector<u64> le(W, 0); u64 e0 = 0;
            auto launch = [&](int k)
            {
                fflush(stdout); pid_t c = fork();
                if (c == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL); pin(k); if (!getenv("MC_NOISY")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); } 
                    me = w[k]; enter_process(); path.clear(); arity.clear(); fixedLen = 0; warm_up(s);
                    bool idle = false;
                    for (;;)
                    {
                        qlock(); bool got = sh->qn > 0; if (got) { job& j = sh->q[--sh->qn]; path.assign(j.path, j.path + j.len); fixedLen = j.fixed; if (idle) { sh->idle--; idle = false; } } else if (!idle) { idle = true; sh->idle++; } qunlock();
                        if (sh->stop) break;
                        if (!got) { if (sh->idle >= sh->workers) break; timespec t{ 0, 200000 }; raw_syscall(SYS_nanosleep, (long)&t, 0); continue; }
                        arity.clear(); u32 fixed = fixedLen;
                        for (;;)
                        {
                            execute(s);
                            if (sh->stop) break;
                            if (sh->idle > 0 && sh->qn < u32(W)) donate(fixed);
                            if (!advance(fixed)) break;
                        }
                        if (sh->stop) break;
                    }
                    me->done = 1; _exit(0);
                }
                pids[k] = c; last[k] = now();
            };
            for (int k = 0; k < W; ++k) launch(k);
            int alive = W;
            while (alive)
            {
                int st; pid_t c = waitpid(-1, &st, WNOHANG);
                if (c > 0)
                {
                    for (int k = 0; k < W; ++k) if (pids[k] == c)
                    {
                        if (WIFEXITED(st) && WEXITSTATUS(st) == 42 && !sh->stop) { launch(k); continue; }
                        pids[k] = 0; --alive; std::vector<u8> p(w[k]->path, w[k]->path + w[k]->len);
                        if (w[k]->failed) bad.push_back({ p, "fail" });
                        else if (!WIFEXITED(st)) { if (!sh->stop) bad.push_back({ p, "crash" }); sh->stop = 1; }
                        else if (WEXITSTATUS(st) == 3) { fprintf(stderr, "sched: worker failed internally in %s (rerun with MC_NOISY=1)\n", s.name.c_str()); internal = 1; sh->stop = 1; }
                        else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 42) { if (!sh->stop) bad.push_back({ p, "crash" }); sh->stop = 1; }
                    }
                    continue;
                }
                for (int k = 0; k < W; ++k) if (pids[k])
                {
                    u64 e = w[k]->execs + w[k]->ops; if (e != le[k]) { le[k] = e; last[k] = now(); }
                    if (now() - last[k] > s.hangSeconds && w[k]->running) { bad.push_back({ std::vector<u8>(w[k]->path, w[k]->path + w[k]->len), "hang" }); kill(pids[k], SIGKILL); sh->stop = 1; last[k] = now() + 1e9; }
                }
                if (now() - t0 > budget && !sh->stop) { sh->stop = 1; timedOut = true; }
                timespec t{ 0, 300000 }; raw_syscall(SYS_nanosleep, (long)&t, 0);
            }
            lastE = lastSt = 0; for (auto x : w) { lastE += x->execs; scO += x->ops; scV += x->validatedRuns; scP += x->prunedRuns; maxPath = std::max(maxPath, x->maxPath); munmap(x, sizeof(slot)); }
            lastSt = sh->states - st0; scE += lastE; scSt = lastSt; badBound = b; (void)e0;
            if (getenv("MC_PHASES")) fprintf(stderr, "  phase %d bound %d: %lu schedules %lu states grew=%u shared=%lu %.1fs\n", phase, b, lastE, lastSt, sh->grew.load(), sh->sharedObjs.load(), now() - ts);
            if (!timedOut && bad.empty() && !internal) { if (!sh->grew) { completedBound = b; ++b; } }
        }
        if (timedOut) complete = false;
        totE += scE; totO += scO; totV += scV; totS += scSt;
        std::string status = bad.empty() ? "ok" : "violated";
        printf("%-40s bound=%d%s schedules=%lu (last bound %lu) ops=%lu states=%lu shared-objects=%lu maxchoices=%u %.1fs\n", s.name.c_str(), completedBound, timedOut ? " (budget)" : "", scE, lastE, scO, scSt, sh->sharedObjs.load(), maxPath, now() - ts);
        js << (firstS ? "" : ",") << "{\"name\":" << jstr(s.name) << ",\"preemption_bound\":" << completedBound << ",\"executions\":" << scE << ",\"schedules_at_final_bound\":" << lastE << ",\"transitions\":" << scO << ",\"states\":" << scSt << ",\"shared_objects\":" << sh->sharedObjs.load() << ",\"complete\":" << (timedOut ? "false" : "true") << ",\"wall_s\":" << now() - ts << "}"; firstS = false;
        if (bad.empty() && samples.size() < 6)
        {
            std::vector<std::string> t; std::string e; auto r = run_confined(s, {}, 0, 60, &t, &e); std::string l = s.name + ":"; for (std::size_t i = 0; i < t.size() && i < 40; ++i) l += " " + t[i] + ";"; samples.push_back(l.substr(0, 1500));
        }
        std::set<std::string> seenKeys;
        for (auto& b : bad)
        {
            std::vector<std::string> t; std::string e; cresult r = run_confined(s, b.first, badBound, b.second == "hang" ? 60 : 120, &t, &e);
            if (r.status == "ok" || r.status == "internal") { fprintf(stderr, "sched: %s of %s did not reproduce (%s %s)\n", b.second.c_str(), s.name.c_str(), r.status.c_str(), e.c_str()); internal = 1; continue; }
            if (knownIndex(r.key) >= 0) { sh->knownHit[knownIndex(r.key)]++; continue; }
            if (!seenKeys.insert(r.key).second) continue;
            std::string file = replayDir + "/" + s.name + ".replay"; std::ofstream f(file); f << "scenario " << s.name << "\ntier " << tierName << "\nbound " << badBound << "\nshared ";
            { std::vector<u64> v; for (auto& x : sh->frozen) if (x) v.push_back(x); f << v.size(); for (auto x : v) f << " " << x; }
            f << "\npath " << b.first.size(); for (auto c : b.first) f << " " << int(c); f << "\n"; for (auto& l : t) f << "  " << l << "\n"; f << r.key << " " << r.message << "\n";
            ++violations; printf("MC-VIOLATION scenario=%s key=%s replay=%s :: %s\n", s.name.c_str(), r.key.c_str(), file.c_str(), r.message.c_str());
            std::size_t from = t.size() > 60 ? t.size() - 60 : 0; for (std::size_t i = from; i < t.size(); ++i) printf("    %s\n", t[i].c_str());
        }
        fflush(stdout);
        if (timedOut) break;
    }
    js << "],\"executions\":" << totE << ",\"transitions\":" << totO << ",\"states\":" << totS << ",\"validated\":" << totE << ",\"complete\":" << (complete ? "true" : "false") << ",\"state_table_saturated\":" << (sh->saturated ? "true" : "false") << ",\"known_hits\":[";
    bool f1 = true; for (std::size_t i = 0; i < known.size() && i < 64; ++i) if (sh->knownHit[i]) { js << (f1 ? "" : ",") << jstr(known[i]); f1 = false; }
    js << "],\"samples\":["; for (std::size_t i = 0; i < samples.size(); ++i) js << (i ? "," : "") << jstr(samples[i]); js << "]}";
    if (!out.empty()) { std::ofstream f(out); f << js.str() << "\n"; }
    return violations ? 1 : internal ? 3 : 0;
}
