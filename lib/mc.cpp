#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <fstream>
#include <deque>
#include <set>
#include <map>
#include <algorithm>
#include <chrono>
#include <thread>
#include <typeinfo>
#include <cxxabi.h>

extern "C" const char* __asan_default_options() { return "detect_leaks=0:quarantine_size_mb=8:malloc_context_size=8:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:max_allocation_size_mb=2048"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=77"; }

extern "C" __attribute__((weak)) void __asan_poison_memory_region(void const volatile*, std::size_t);
extern "C" __attribute__((weak)) void __asan_unpoison_memory_region(void const volatile*, std::size_t);

// Tracked heap: every block from operator new is zeroed and on a list (this file is not ASan-instrumented, so it may
// touch the poisoned headers).
namespace
{
    struct header { header* prev; header* next; std::size_t size; std::uint32_t pad, magic; std::size_t align; std::size_t fill[3]; };
    static_assert(sizeof(header) == 64);
    header heapList{ &heapList, &heapList, 0, 0, 0, 0, {} };
    std::size_t heapBlocks = 0; std::uintptr_t heapLo = ~std::uintptr_t(0), heapHi = 0;
    constexpr std::uint32_t HMAGIC = 0x4ea9b10c, HDEAD = 0xdeadb10c;
    void* tracked_alloc(std::size_t n, std::size_t align)
    {
        std::size_t pre = std::max<std::size_t>(sizeof(header), align);
        char* raw = align > 16 ? static_cast<char*>(aligned_alloc(align, (pre + n + align - 1) / align * align)) : static_cast<char*>(malloc(pre + n));
        if (!raw) throw std::bad_alloc();
        memset(raw, 0, pre + n);
        header* h = reinterpret_cast<header*>(raw + pre - sizeof(header));
        h->size = n; h->pad = std::uint32_t(pre); h->magic = HMAGIC; h->align = align;
        h->next = &heapList; h->prev = heapList.prev; heapList.prev->next = h; heapList.prev = h; ++heapBlocks;
        heapLo = std::min(heapLo, reinterpret_cast<std::uintptr_t>(raw)); heapHi = std::max(heapHi, reinterpret_cast<std::uintptr_t>(raw) + pre + n);
        if (__asan_poison_memory_region) __asan_poison_memory_region(raw, pre);
        return raw + pre;
    }
    void tracked_free(void* p)
    {
        if (!p) return;
        header* h = reinterpret_cast<header*>(static_cast<char*>(p) - sizeof(header));
        if (h->magic != HMAGIC) { fprintf(stderr, "mc: operator delete of a pointer that is not a live block (%s)\n", h->magic == HDEAD ? "double free" : "wild"); _exit(78); }
        h->magic = HDEAD; h->prev->next = h->next; h->next->prev = h->prev; --heapBlocks;
        char* raw = static_cast<char*>(p) - h->pad;
        if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(raw, h->pad + h->size); // containers poison what they have not used
        memset(p, 0xDD, h->size);
        free(raw);
    }
}
void* operator new(std::size_t n) { return tracked_alloc(n, 16); }
void* operator new[](std::size_t n) { return tracked_alloc(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return tracked_alloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return tracked_alloc(n, std::size_t(a)); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return tracked_alloc(n, 16); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return tracked_alloc(n, 16); }
void operator delete(void* p, std::nothrow_t const&) noexcept { tracked_free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { tracked_free(p); }
void operator delete(void* p) noexcept { tracked_free(p); }
void operator delete[](void* p) noexcept { tracked_free(p); }
void operator delete(void* p, std::size_t) noexcept { tracked_free(p); }
void operator delete[](void* p, std::size_t) noexcept { tracked_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { tracked_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { tracked_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { tracked_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { tracked_free(p); }

template <typename T> struct rawalloc { using value_type = T; rawalloc() = default; template <typename U> rawalloc(rawalloc<U> const&) {} T* allocate(std::size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); } void deallocate(T* p, std::size_t) { free(p); } friend bool operator==(rawalloc const&, rawalloc const&) { return true; } };
using path_t = std::vector<std::uint16_t, rawalloc<std::uint16_t>>; using paths_t = std::vector<path_t, rawalloc<path_t>>;   // engine data stays out of the tracked heap

namespace mc
{
    std::size_t live_blocks() { return heapBlocks; }
    std::uint64_t heap_hash(std::vector<root> const& roots, bool elementValues)
    {
        static std::vector<header*, rawalloc<header*>> blocks; static std::vector<int, rawalloc<int>> id, queue;   // static: not allocated per call
        std::uint64_t h = 0x1234567;
        blocks.clear(); for (header* b = heapList.next; b != &heapList; b = b->next) blocks.push_back(b);
        auto start = [](header* b) { return reinterpret_cast<std::uintptr_t>(b) + sizeof(header); };
        std::sort(blocks.begin(), blocks.end());
        id.assign(blocks.size(), -1); queue.clear(); int nextId = 0;
        auto find = [&](std::uintptr_t w) -> int {
            auto it = std::upper_bound(blocks.begin(), blocks.end(), w, [&](std::uintptr_t v, header* b) { return v < start(b); });
            if (it == blocks.begin()) return -1;
            --it; return w <= start(*it) + (*it)->size ? int(it - blocks.begin()) : -1;
        };
        auto mix = [&](std::uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; };
        auto scan = [&](void const* p, std::size_t n) {
            auto c = static_cast<unsigned char const*>(p);
            for (std::size_t i = 0; i < n; i += 8)
            {
                std::uint64_t w = 0; memcpy(&w, c + i, std::min<std::size_t>(8, n - i));
                if (std::uint32_t(w >> 32) == elem::MAGIC) { mix(elementValues ? w : (w & ~0xffffffffull)); continue; }
                int b = w > 4096 ? find(w) : -1;
                if (b >= 0) { if (id[b] < 0) { id[b] = nextId++; queue.push_back(b); } mix(0xB10C0000ull + id[b]); mix(w - start(blocks[b])); }
                else if (w >= heapLo && w <= heapHi) mix(0xDA9611A6u);   // dangling: any use is caught by ASan, its value is irrelevant
                else mix(w);
            }
        };
        for (auto const& r : roots) { int b = find(reinterpret_cast<std::uintptr_t>(r.p)); if (b >= 0 && id[b] < 0) { id[b] = nextId++; queue.push_back(b); } else if (b < 0) scan(r.p, r.n); }
        for (std::size_t q = 0; q < queue.size(); ++q) { header* b = blocks[queue[q]]; mix(b->size); scan(reinterpret_cast<void*>(start(b)), b->size); }
        return h;
    }
    namespace
    {
        constexpr std::uint32_t MAXPATH = 8192;
        constexpr std::uint64_t TABLE = 1ull << 25;
        struct slot                       // one per worker, shared memory
        {
            std::atomic<std::uint64_t> execs, ops, validatedRuns, maxDepth, pruned;
            std::atomic<std::uint32_t> scenario, len, running, done;
            std::uint16_t path[MAXPATH];
            char failKey[256]; char failMsg[4096]; std::atomic<std::uint32_t> failed; // 1 violation
            std::atomic<std::uint64_t> knownHits;
        };
        struct shared_t
        {
            std::atomic<std::uint32_t> nextJob, stop;
            std::atomic<std::uint64_t> states, saturated;
            std::atomic<std::uint32_t> knownHit[64];
        };
        shared_t* sh; slot* me; slot dummy; std::atomic<std::uint64_t>* table;

        path_t path; path_t arity; std::size_t cursor; std::size_t changed;
        bool tracingOn = false; typedef std::deque<std::string> lines; lines traceLines;
        bool thoroughTier = false; std::vector<std::string> known; // "key" strings
        bool failedFlag; violation lastViolation;
        int bfsLevel = -1, bfsSeen = 0; bool bfsCollect = false; path_t* bfsOut = nullptr; bool leakCheck = true, leaksAllowed = false;
        struct stop_at_checkpoint {};

        template <typename T> T* shmem(std::size_t n)
        {
            void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
            return static_cast<T*>(p);
        }
        double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

        int knownIndex(std::string const& key) { for (std::size_t i = 0; i < known.size() && i < 64; ++i) if (known[i] == key) return int(i); return -1; }

        bool stopAtEnd = false, splitting = false; std::size_t endLen = 0; int traceFd = -1; bool leakRerun = false; std::uint64_t scenarioSalt = 0;
        // Runs the body once along `path` (then default 0). Returns false on an (unknown) violation.
        bool execute(scenario const& s)
        {
            cursor = 0; failedFlag = false; leaksAllowed = false; traceLines.clear();
            me->len = std::uint32_t(std::min<std::size_t>(path.size(), MAXPATH));
            for (std::size_t i = 0; i < me->len; ++i) me->path[i] = path[i];
            me->running = 1;
            long live0 = elem::live; std::size_t blocks0 = heapBlocks; bfsSeen = 0; bool completed = false;
            try { try { s.body(); } catch (stop_at_checkpoint const&) {} completed = true; if (!failedFlag && elem::live != live0) { long l = elem::live; elem::live = live0; failedFlag = true; lastViolation = { "element-balance", str("elements constructed and destroyed do not balance: ", l - live0, " left over") }; } }
            catch (prune const&) { me->pruned++; elem::live = live0; }
            catch (violation const&) { elem::live = live0; }
            catch (std::exception const& e) { if (!failedFlag) { failedFlag = true; lastViolation = { std::string("exception:") + typeid(e).name(), std::string("unexpected exception: ") + e.what() }; } elem::live = live0; }
            catch (...) { if (!failedFlag) { failedFlag = true; auto t = abi::__cxa_current_exception_type(); lastViolation = { std::string("exception:") + (t ? t->name() : "?"), "unexpected exception of unknown type" }; } elem::live = live0; }
            if (completed && !failedFlag && !tracingOn && leakCheck && !leaksAllowed && heapBlocks > blocks0)
            {   // perhaps a lazily initialised global: a real leak repeats
                leakCheck = false; auto p0 = path; auto lvl = bfsCollect; bfsCollect = false; bool ok = true; std::size_t b1 = heapBlocks; path.resize(cursor); bool r = execute(s); (void)ok;
                leakCheck = true; bfsCollect = lvl;
                if (r && heapBlocks > b1) { std::size_t n = heapBlocks - b1; failedFlag = true; lastViolation = { "leak", str(n, " heap block(s) are never freed") }; }
                else if (!r) return false;
            }
            else if (completed && !failedFlag && tracingOn && heapBlocks > blocks0 && leakCheck && !leaksAllowed)
            {   // replay: run again to see whether it repeats (trace strings are reserved by now)
                auto saved = traceLines; leakCheck = false; tracingOn = false; std::size_t b1 = heapBlocks; path.resize(cursor); bool r = execute(s); tracingOn = true; leakCheck = true;
                if (r && heapBlocks > b1) { failedFlag = true; lastViolation = { "leak", str(heapBlocks - b1, " heap block(s) are never freed") }; }
                traceLines = saved;
            }
            me->running = 0;
            me->execs++;
            if (cursor > me->maxDepth) me->maxDepth = cursor;
            path.resize(cursor); arity.resize(cursor);
            if (failedFlag)
            {
                int k = knownIndex(lastViolation.key);
                if (k >= 0) { sh->knownHit[k]++; me->knownHits++; failedFlag = false; return true; }
                return false;
            }
            return true;
        }
        bool advance(std::size_t fixed, std::size_t limit)   // next path in DFS order within positions [fixed, limit)
        {
            std::size_t i = std::min(path.size(), limit);
            while (i > fixed)
            {
                --i;
                if (path[i] + 1u < arity[i]) { ++path[i]; path.resize(i + 1); arity.resize(i + 1); changed = i; return true; }
            }
            return false;
        }
        void record_failure(slot* w) { strncpy(w->failKey, lastViolation.key.c_str(), 255); strncpy(w->failMsg, lastViolation.message.c_str(), 4095); w->failed = 1; }
        std::string jstr(std::string const& s)
        {
            std::string o = "\"";
            for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
            return o + "\"";
        }
    }

    std::uint32_t choose(std::uint32_t n, const char*)
    {
        if (n == 0) { throw prune{}; }
        std::size_t i = cursor++;
        if (i < path.size())
        {
            if (i < arity.size() && arity[i] != 0 && arity[i] != n) { fprintf(stderr, "mc: nondeterministic replay: position %zu had %u choices, now %u\n", i, arity[i], n); _exit(3); }
            if (path[i] >= n) { fprintf(stderr, "mc: replay choice out of range at %zu: %u of %u\n", i, path[i], n); _exit(3); }
            if (i >= arity.size()) arity.resize(i + 1, 0);
            arity[i] = std::uint16_t(n);
            return path[i];
        }
        if (i >= MAXPATH) { failedFlag = true; lastViolation = { "horizon", "execution exceeded the choice horizon" }; throw lastViolation; }
        path.push_back(0); if (arity.size() < path.size()) arity.resize(path.size(), 0); arity[i] = std::uint16_t(n);
        me->path[i] = 0; me->len = std::uint32_t(i + 1);
        return 0;
    }
    bool fresh() { return cursor > changed; }
    void heavy() { if (splitting) throw prune{}; }
    bool tracing() { return tracingOn; }
    void trace_line(std::string const& s) { if (traceLines.size() > 999) traceLines.pop_front(); traceLines.push_back(s); if (traceFd >= 0 && !leakRerun) { std::string l = s + "\n"; (void)!write(traceFd, l.data(), l.size()); } if (getenv("MC_TRACE_LIVE")) { fprintf(stderr, "  %s\n", s.c_str()); } }
    void fail(std::string const& key, std::string const& message) { if (!failedFlag) { failedFlag = true; lastViolation = { dashed(key), message }; } throw lastViolation; }
    void elem::fail_dead() const { std::string m = "use of an element that is not alive (destroyed, never constructed, or bitwise moved)"; if (!failedFlag) { failedFlag = true; lastViolation = { "dead-element", m }; } if (std::uncaught_exceptions()) { fprintf(stderr, "mc: %s\n", m.c_str()); } fprintf(stderr, "mc: %s\n", m.c_str()); _exit(76); }
    static bool insert_state(std::uint64_t h)
    {
        h ^= scenarioSalt; if (h == 0) h = 1;
        std::uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> (64 - 25);
        for (int n = 0; n < 64; ++n, i = (i + 1) & (TABLE - 1))
        {
            std::uint64_t v = table[i].load(std::memory_order_relaxed);
            if (v == h) return false;
            if (v == 0) { if (table[i].compare_exchange_strong(v, h)) { sh->states++; return true; } if (v == h) return false; }
        }
        sh->saturated++;
        return true;
    }
    void state(std::uint64_t h) { insert_state(h); }
    void op() { me->ops++; }
    void checkpoint(std::uint64_t h)
    {
        ++bfsSeen; me->ops++;
        if (stopAtEnd) { if (cursor >= endLen) throw stop_at_checkpoint{}; return; }
        if (bfsLevel < 0) { return; }
        if (bfsSeen <= bfsLevel) return;
        if (bfsCollect)
        {
            std::uint64_t before = h; (void)before;
            if (insert_state(h)) { bfsOut->push_back(std::uint16_t(cursor)); for (std::size_t i = 0; i < cursor; ++i) bfsOut->push_back(path[i]); }
        }
        throw stop_at_checkpoint{};
    }
    void allow_leaks() { leaksAllowed = true; }
    void validated() { me->validatedRuns++; }
    int tier(int q, int t) { return thoroughTier ? t : q; }
    bool thorough() { return thoroughTier; }
    std::vector<scenario>& scenarios() { static std::vector<scenario> s; return s; }

    struct result { std::string status, key, message; path_t path; };

    // Runs one path in a forked child with a time limit; returns what happened (for confirmation and samples).
    static result run_confined(scenario const& s, path_t const& p, double limit, lines* trace, std::string* err)
    {
        slot* w = shmem<slot>(1);
        int fd[2], ed[2]; if (pipe(fd) || pipe(ed)) _exit(3);
        fflush(stdout); fflush(stderr);
        pid_t c = fork();
        if (c == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(fd[0]); close(ed[0]); dup2(ed[1], 2); dup2(ed[1], 1);
            me = w; path = p; arity.clear(); changed = 0; tracingOn = true; stopAtEnd = s.depthQuick > 0; endLen = p.size(); traceFd = fd[1];
            bool ok = execute(s);
            if (!ok) record_failure(w);
            _exit(0);
        }
        close(fd[1]); close(ed[1]);
        fcntl(fd[0], F_SETFL, O_NONBLOCK); fcntl(ed[0], F_SETFL, O_NONBLOCK);
        double t0 = now(); int st = 0; bool hung = false; std::string to, te; char b[65536];
        for (;;)
        {
            ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) to.append(b, n);
            while ((n = read(ed[0], b, sizeof b)) > 0) if (te.size() < 200000) te.append(b, n);
            if (waitpid(c, &st, WNOHANG) == c) break;
            if (now() - t0 > limit) { kill(c, SIGKILL); waitpid(c, &st, 0); hung = true; break; }
            usleep(500);
        }
        ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) to.append(b, n);
        while ((n = read(ed[0], b, sizeof b)) > 0) te.append(b, n);
        close(fd[0]); close(ed[0]);
        if (trace) { std::istringstream is(to); std::string l; while (std::getline(is, l)) { if (trace->size() > 299) trace->pop_front(); trace->push_back(l); } }
        if (err) *err = te;
        result r; r.path = path_t(w->path, w->path + w->len); r.status = "ok";
        if (hung) { r.status = "hang"; r.key = "hang"; r.message = str("execution did not finish within ", limit, " s"); }
        else if (WIFSIGNALED(st)) { r.status = "crash"; r.key = str("signal-", WTERMSIG(st)); r.message = str("process died on signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")"); }
        else if (WEXITSTATUS(st) == 3) { r.status = "internal"; r.message = te; }
        else if (WEXITSTATUS(st) != 0) { r.status = "crash"; r.key = str("exit-", WEXITSTATUS(st)); r.message = str("process exited with ", WEXITSTATUS(st), " (sanitizer report or abort)"); }
        else if (w->failed) { r.status = "violation"; r.key = w->failKey; r.message = w->failMsg; }
        munmap(w, sizeof(slot));
        return r;
    }
}

using namespace mc;

int main(int argc, char** argv)
{
    std::string out, replay, replayDir = ".", only, tierName = "quick"; int jobs = 8; double budget = 1e9; std::string knownFile;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--out") out = next(); else if (a == "--replay") replay = next(); else if (a == "--replay-dir") replayDir = next();
        else if (a == "--tier") tierName = next(); else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--only") only = next(); else if (a == "--known") knownFile = next();
        else if (a == "--list") { for (auto& s : scenarios()) printf("%s\n", s.name.c_str()); return 0; }
    }
    thoroughTier = tierName == "thorough";
    if (!knownFile.empty()) { std::ifstream f(knownFile); std::string l; while (std::getline(f, l)) if (!l.empty()) known.push_back(l); }
    sh = shmem<shared_t>(1); table = shmem<std::atomic<std::uint64_t>>(TABLE); me = shmem<slot>(1);
    signal(SIGPIPE, SIG_IGN);

    if (!replay.empty())
    {
        std::ifstream f(replay); std::string tag, name, tn; std::size_t n = 0; path_t p;
        while (f >> tag) { if (tag == "scenario") { f >> name; } else if (tag == "tier") { f >> tn; thoroughTier = tn == "thorough"; } else if (tag == "path") { f >> n; for (std::size_t i = 0; i < n; ++i) { int v; f >> v; p.push_back(v); } break; } }
        for (auto& s : scenarios()) if (s.name == name)
        {
            lines t; std::string e; auto r = run_confined(s, p, s.hangSeconds * 3, &t, &e);
            for (auto& l : t) printf("  %s\n", l.c_str());
            if (!e.empty()) printf("%s\n", e.c_str());
            printf("replay: %s %s %s\n", r.status.c_str(), r.key.c_str(), r.message.c_str());
            return r.status == "ok" ? 0 : r.status == "internal" ? 3 : 1;
        }
        fprintf(stderr, "no scenario %s\n", name.c_str()); return 3;
    }

    double t0 = now(); bool complete = true; int violations = 0; int internal = 0;
    std::ostringstream js; js << "{\"scenarios\":[";
    bool firstS = true; std::uint64_t totE = 0, totO = 0, totV = 0;
    std::vector<std::string> samples; std::string violJson; std::set<std::string> seenKeys;
    for (std::size_t si = 0; si < scenarios().size(); ++si)
    {
        auto& s = scenarios()[si];
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        double ts = now(); std::uint64_t states0 = sh->states; scenarioSalt = (si + 1) * 0xD1B54A32D192ED03ull;
        std::vector<slot*> w; for (int k = 0; k < jobs; ++k) w.push_back(shmem<slot>(1));
        paths_t badPaths; std::vector<std::string> badWhy; bool timedOut = false;
        paths_t prefixes; std::vector<FILE*> outFiles;
        auto run_workers = [&](int level)
        {
            sh->nextJob = 0; sh->stop = 0;
            std::vector<pid_t> pids(jobs, 0); std::vector<double> last(jobs, now()); std::vector<std::uint64_t> le(jobs, 0);
            int useJobs = int(std::min<std::size_t>(jobs, prefixes.size()));
            auto launch = [&](int k) {
                fflush(stdout);
                pid_t c = fork();
                if (c == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    int devnull = open("/dev/null", O_WRONLY); if (!getenv("MC_NOISY")) { dup2(devnull, 1); dup2(devnull, 2); }
                    me = w[k]; path_t collected; bfsOut = &collected; bfsLevel = level; bfsCollect = level >= 0;
                    for (;;)
                    {
                        std::uint32_t j = sh->nextJob++;
                        if (j >= prefixes.size() || sh->stop) break;
                        path = prefixes[j]; arity.clear(); changed = 0; std::size_t fixed = path.size();
                        for (;;)
                        {
                            if (!execute(s)) { record_failure(me); sh->stop = 1; _exit(0); }
                            if (sh->stop) break;
                            if (!advance(fixed, MAXPATH)) break;
                        }
                    }
                    if (level >= 0) { fwrite(collected.data(), 2, collected.size(), outFiles[k]); fflush(outFiles[k]); }
                    me->done = 1;
                    _exit(0);
                }
                pids[k] = c; last[k] = now();
            };
            for (int k = 0; k < useJobs; ++k) launch(k);
            int alive = useJobs;
            while (alive)
            {
                int st; pid_t c = waitpid(-1, &st, WNOHANG);
                if (c > 0)
                {
                    for (int k = 0; k < jobs; ++k) if (pids[k] == c)
                    {
                        pids[k] = 0; --alive;
                        if (w[k]->failed) { badPaths.push_back(path_t(w[k]->path, w[k]->path + w[k]->len)); badWhy.push_back(str("fail ", w[k]->failKey, ": ", w[k]->failMsg)); }
                        else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { badPaths.push_back(path_t(w[k]->path, w[k]->path + w[k]->len)); badWhy.push_back("crash"); sh->stop = 1; }
                    }
                    continue;
                }
                for (int k = 0; k < jobs; ++k) if (pids[k])
                {
                    std::uint64_t e = w[k]->execs; if (e != le[k]) { le[k] = e; last[k] = now(); }
                    if (now() - last[k] > s.hangSeconds && w[k]->running) { badPaths.push_back(path_t(w[k]->path, w[k]->path + w[k]->len)); badWhy.push_back("hang"); kill(pids[k], SIGKILL); sh->stop = 1; last[k] = now() + 1e9; }
                }
                if (now() - t0 > budget && !sh->stop) { sh->stop = 1; timedOut = true; }
                usleep(300);
            }
        };
        std::uint64_t levels = 0; bool closed = false;
        if (s.depthQuick)
        {
            int depth = thoroughTier ? s.depthThorough : s.depthQuick;
            prefixes.push_back({});
            for (int level = 0; level <= depth && badPaths.empty() && !timedOut; ++level)
            {
                for (int k = 0; k < jobs; ++k) outFiles.push_back(tmpfile());
                run_workers(level);
                paths_t next;
                for (auto f : outFiles)
                {
                    rewind(f); std::uint16_t n;
                    while (fread(&n, 2, 1, f) == 1) { path_t p(n); if (n && fread(p.data(), 2, n, f) != n) break; next.push_back(std::move(p)); }
                    fclose(f);
                }
                outFiles.clear(); levels = level;
                if (badPaths.empty() && !timedOut) { if (next.empty()) { closed = true; break; } if (level < depth) { prefixes.swap(next); } else break; }
            }
        }
        else
        {
        // 1. split: enumerate the first positions, in a confined child that streams the prefixes
        {
            int fd[2]; if (pipe(fd)) return 3;
            fflush(stdout);
            slot* sw = shmem<slot>(1);
            pid_t c = fork();
            if (c == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                close(fd[0]); me = sw; path.clear(); arity.clear(); changed = 0; splitting = true;
                int devnull = open("/dev/null", O_WRONLY); if (!getenv("MC_NOISY")) { dup2(devnull, 1); dup2(devnull, 2); }
                std::size_t D = s.splitDepth; 
                for (;;)
                {
                    bool ok = execute(s);
                    path_t pre(path.begin(), path.begin() + std::min(path.size(), D));
                    std::uint32_t n = pre.size(); std::string o((char*)&n, 4); o.append((char*)pre.data(), 2 * n);
                    if (write(fd[1], o.data(), o.size()) < 0) _exit(3);
                    if (!ok) { record_failure(sw); _exit(0); }
                    if (!advance(0, D)) break;
                }
                _exit(0);
            }
            close(fd[1]);
            std::string buf; char b[65536]; ssize_t n; int st = 0; double last = now(); std::uint64_t le = 0; bool hung = false;
            fcntl(fd[0], F_SETFL, O_NONBLOCK);
            for (;;)
            {
                while ((n = read(fd[0], b, sizeof b)) > 0) buf.append(b, n);
                if (waitpid(c, &st, WNOHANG) == c) break;
                std::uint64_t e = sw->execs; if (e != le) { le = e; last = now(); }
                if (now() - last > s.hangSeconds) { hung = true; kill(c, SIGKILL); waitpid(c, &st, 0); break; }
                usleep(200);
            }
            while ((n = read(fd[0], b, sizeof b)) > 0) buf.append(b, n);
            close(fd[0]);
            for (std::size_t o = 0; o + 4 <= buf.size();) { std::uint32_t k; memcpy(&k, &buf[o], 4); o += 4; path_t p(k); memcpy(p.data(), &buf[o], 2 * k); o += 2 * k; prefixes.push_back(p); }
            bool died = hung || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
            if (died || sw->failed) { badPaths.push_back(path_t(sw->path, sw->path + sw->len)); badWhy.push_back(hung ? std::string("hang") : str("fail ", sw->failKey, ": ", sw->failMsg)); if (sw->failed) { /* path in slot */ } }
            munmap(sw, sizeof(slot));
        }
        if (badPaths.empty()) run_workers(-1);
        }
        if (timedOut) complete = false;
        // 3. confirm violations by replay, pick the shortest
        std::vector<std::string> keys;
        std::vector<std::size_t> order(badPaths.size()); for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
        std::sort(order.begin(), order.end(), [&](auto a, auto b) { return badPaths[a].size() != badPaths[b].size() ? badPaths[a].size() < badPaths[b].size() : badPaths[a] < badPaths[b]; });
        bool reported = false; std::string unconfirmed;
        for (auto bi : order)
        {
            if (reported) break;
            lines tr, tr2; std::string er;
            auto r1 = run_confined(s, badPaths[bi], s.hangSeconds * 3, &tr, &er);
            if (r1.status == "internal") { internal++; fprintf(stderr, "%s\n", r1.message.c_str()); continue; }
            if (r1.status == "ok") { unconfirmed = badWhy[bi] + "; path"; for (auto v : badPaths[bi]) unconfirmed += str(" ", int(v)); continue; }
            if (knownIndex(r1.key) >= 0) { sh->knownHit[knownIndex(r1.key)]++; }
            auto r2 = r1.status == "hang" ? r1 : run_confined(s, badPaths[bi], s.hangSeconds * 3, &tr2, nullptr);
            if (r2.status == "ok") { unconfirmed = "flaky"; continue; }
            reported = true; violations++;
            std::string fn = s.name + ".replay"; for (auto& ch : fn) if (ch == ' ' || ch == '/') ch = '_'; fn = replayDir + "/" + fn;
            std::ofstream f(fn); f << "scenario " << s.name << "\ntier " << tierName << "\npath " << r1.path.size(); for (auto v : r1.path) f << " " << v; f << "\nkey " << r1.key << "\nmessage " << r1.message << "\n";
            for (auto& l : tr) f << "  " << l << "\n"; f << er.substr(0, 20000);
            printf("MC-VIOLATION scenario=%s key=%s replay=%s :: %s\n", s.name.c_str(), r1.key.c_str(), fn.c_str(), r1.message.c_str());
            std::size_t from = tr.size() > 40 ? tr.size() - 40 : 0; for (std::size_t i = from; i < tr.size(); ++i) printf("    %s\n", tr[i].c_str());
            if (!er.empty()) { std::string e = er.substr(0, 3000); printf("%s\n", e.c_str()); }
            if (!violJson.empty()) violJson += ",";
            violJson += "{\"scenario\":" + jstr(s.name) + ",\"key\":" + jstr(r1.key) + ",\"message\":" + jstr(r1.message) + ",\"replay\":" + jstr(fn) + "}";
        }
        if (!badPaths.empty() && !reported) { fprintf(stderr, "mc: scenario %s: failure (%s) did not reproduce on replay\n", s.name.c_str(), unconfirmed.c_str()); internal++; }
        std::uint64_t E = 0, O = 0, V = 0, M = 0, Pn = 0; for (auto x : w) { E += x->execs; O += x->ops; V += x->validatedRuns; Pn += x->pruned; M = std::max<std::uint64_t>(M, x->maxDepth); munmap(x, sizeof(slot)); }
        totE += E; totO += O; totV += V;
        // 4. samples: re-run a few jobs with tracing
        if (badPaths.empty() && !prefixes.empty())
            for (std::size_t j : std::set<std::size_t>{ prefixes.size() / 2, prefixes.size() - 1 })
            {
                lines tr; run_confined(s, prefixes[j], 60, &tr, nullptr);
                std::string t; for (std::size_t i = 0; i < tr.size() && i < 14; ++i) t += (i ? "; " : "") + tr[i]; if (t.size() > 600) t.resize(600);
                samples.push_back(s.name + ": " + t);
            }
        if (!firstS) js << ","; firstS = false;
        js << "{\"name\":" << jstr(s.name) << ",\"executions\":" << E << ",\"transitions\":" << O << ",\"validated\":" << V << ",\"pruned\":" << Pn << ",\"max_choices\":" << M << ",\"states\":" << (sh->states - states0) << ",\"wall_s\":" << (now() - ts) << (s.depthQuick ? str(",\"bfs_depth\":", levels, ",\"all_reachable_states\":", closed ? "true" : "false") : std::string()) << ",\"complete\":" << (timedOut ? "false" : "true") << "}";
        fprintf(stderr, "%-40s %s execs=%llu ops=%llu states=%llu maxchoices=%llu %.1fs%s\n", s.name.c_str(), s.depthQuick ? str("depth ", levels, closed ? " CLOSED" : "").c_str() : "", (unsigned long long)E, (unsigned long long)O, (unsigned long long)(sh->states - states0), (unsigned long long)M, now() - ts, timedOut ? " TIMED OUT" : "");
    }
    js << "],\"executions\":" << totE << ",\"transitions\":" << totO << ",\"validated\":" << totV << ",\"states\":" << sh->states << ",\"state_table_saturated\":" << sh->saturated << ",\"complete\":" << (complete ? "true" : "false") << ",\"wall_s\":" << now() - t0 << ",\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) js << (i ? "," : "") << jstr(samples[i]);
    js << "],\"violations\":[" << violJson << "],\"known_hits\":[";
    bool f = true; for (std::size_t i = 0; i < known.size() && i < 64; ++i) if (sh->knownHit[i]) { js << (f ? "" : ",") << jstr(known[i]); f = false; }
    js << "]}\n";
    if (!out.empty()) { std::ofstream o(out); o << js.str(); }
    if (violations) return 1;
    if (internal) return 3;
    return 0;
}
