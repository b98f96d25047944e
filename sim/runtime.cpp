// Simulator runtime.  Compiled without instrumentation; the code under test and
// the scenario programs are compiled with -fsanitize=thread and linked against
// this file instead of libtsan, so that every memory access of the code under
// test is a scheduling point and is seen by the race / heap oracle.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <fstream>
#include <sstream>
#include <sys/single_threaded.h>
#include <cxxabi.h>
#include <exception>
#include <algorithm>
#include <iostream>
#include <unordered_map>
#include <set>
#include <typeinfo>

namespace sim {

// ============================================================ constants
static const uintptr_t HEAP_BASE  = 0x200000000000ull;
static const uintptr_t HEAP_SIZE  = 4ull << 30;
static const uintptr_t STACK_BASE = 0x210000000000ull;
static const int       MAXT       = 160;             // simulated threads alive at once
static const int       NSTK       = MAXT + 2;
static const uintptr_t STACK_SZ   = 1024 << 10;
static const uintptr_t STACK_TOT  = NSTK * STACK_SZ;
static const uintptr_t SHADOW_H   = 0x220000000000ull;
static const uintptr_t SHADOW_S   = 0x230000000000ull;
static const uintptr_t SHADOW_D   = 0x240000000000ull;
static const uintptr_t ADDR_MAP   = 0x250000000000ull; // addressability, 1 byte per 8

typedef uint32_t u32;
typedef uint64_t u64;

struct Cell { u64 s[4]; u32 pc[4]; };   // per 8 bytes of memory
static_assert(sizeof(Cell) == 48, "");

__thread int t_fid = -1;
__thread int t_rt  = 0;
volatile bool g_running = false;

// ============================================================ low level
static long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static void futex_wait(u32* p, u32 v) { raw_syscall6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(u32* p) { raw_syscall6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ============================================================ vector clocks, threads
struct VC {
    u32 c[MAXT];
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { FREE, RUN, BLOCKED, SLEEP, DONE };

struct Thr {
    State st = FREE;
    u32 go = 0;
    VC vc;
    const void* wait_obj = nullptr;
    const char* wait_what = "";
    u64 wake = 0;
    bool timed = false, timed_out = false;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool detached = false, joined = false;
    pthread_t real = 0;
    int prio = 0;
    int stk = -1;
    long serial = 0;
};

struct SyncVar { VC vc; bool has = false; };

struct Switch { u64 step; int to; };
struct FaultRec { int site; long idx; int kind; long arg; };

struct Plan {
    std::string scenario;
    u64 seed = 0, schedseed = 0;
    bool explicit_mode = false;      // schedule and faults explicit
    bool params_given = false;       // unknown parameters take `lo`
    std::map<std::string, long> params;
    std::vector<Switch> sw;
    std::map<long, int> picks;
    std::vector<FaultRec> faults;
};

enum Strat { ST_SERIAL, ST_RW, ST_PCT, ST_SYNC, ST_CONFLICT, ST_STALL, NSTRAT };
static const char* strat_names[NSTRAT] = {"serial", "randomwalk", "pct", "sync", "conflict", "stall"};

struct SiteState { bool armed = false; double rate = 0; u32 mask = 0; int maxf = 0; long ops = 0; int fired = 0; Rng rng; };

struct G {
    Thr thr[MAXT];
    int cur = 0;
    u64 step = 0, next_event = ~0ull, budget = ~0ull;
    unsigned options = 0;
    u32 base_clk = 1, max_clk = 1;
    u64 vtime = 0, vtime_sleep = 0;
    long thread_serial = 0;
    int created = 0;
    u64 blocks = 0;
    bool nopreempt = false, alloc_workers = false;

    Plan in, rec;
    size_t swi = 0;
    long pick_idx = 0;
    Rng sched{1};
    Strat strat = ST_SERIAL;
    double p_sync = 0, p_conf = 0;
    u64 mean = 1000;
    int stall_tid = -1;
    std::vector<u64> cps;
    u64 run_hash = 0, sched_hash = 0;
    long nswitch = 0;
    u32 spin = 0; int spin_tid = -1; long spin_sw = -1;   // consecutive synchronisation points of one thread (fairness)

    SiteState site[NSITES];
    Rng rnd{1};
    u64 rnd_stream = 0, rnd_base = 1;
    int rnd_extreme = 0;
    int cpus = 4;

    std::unordered_map<uintptr_t, SyncVar> sync;
    std::map<std::string, long> probes;
    std::map<std::string, long> fault_counts;
    bool trace = false;
    std::vector<std::string> tail;    // last events
    bool stk_used[NSTK], stk_dirty[NSTK];
    int stk_next = 1, fid_next = 1, hi = 1;   // hi: thread ids in use are below it
    std::string property, tier = "quick";
    int report_fd = 1;
    std::string plan_out;
    const RunSpec* spec = nullptr;
    u64 total_steps = 0, total_vtime = 0, total_switch = 0;
    u32 run_done = 0;
};
static G* g;   // allocated before anything else

static uintptr_t data_lo, data_hi;
extern "C" char __data_start, _end;

#define REAL(name) static decltype(&::name) real_##name
REAL(pthread_create); REAL(pthread_join); REAL(pthread_detach); REAL(pthread_self);
REAL(pthread_mutex_lock); REAL(pthread_mutex_unlock); REAL(pthread_mutex_trylock);
REAL(pthread_cond_wait); REAL(pthread_cond_signal); REAL(pthread_cond_broadcast);
REAL(pthread_rwlock_rdlock); REAL(pthread_rwlock_wrlock); REAL(pthread_rwlock_unlock); REAL(pthread_rwlock_tryrdlock); REAL(pthread_rwlock_trywrlock);
REAL(pthread_once); REAL(clock_gettime); REAL(nanosleep); REAL(sched_yield);
static void resolve_reals() {
#define R(name) real_##name = (decltype(&::name))dlsym(RTLD_NEXT, #name)
    R(pthread_create); R(pthread_join); R(pthread_detach); R(pthread_self);
    R(pthread_mutex_lock); R(pthread_mutex_unlock); R(pthread_mutex_trylock);
    R(pthread_cond_wait); R(pthread_cond_signal); R(pthread_cond_broadcast);
    R(pthread_rwlock_tryrdlock); R(pthread_rwlock_trywrlock); R(pthread_rwlock_rdlock); R(pthread_rwlock_wrlock); R(pthread_rwlock_unlock);
    R(pthread_once); R(clock_gettime); R(nanosleep); R(sched_yield);
#undef R
}

// ============================================================ heap
// Deterministic size-class allocator with red zones, FIFO reuse (quarantine),
// fill patterns and an addressability map.
struct Hdr { u64 size; u32 cls; u32 magic; };
static const u32 MAGIC_LIVE = 0xA110CA7E, MAGIC_FREE = 0xF4EEF4EE;
static const size_t RZ = 16;
struct FreeQ { Hdr* head; Hdr* tail; u64 n; };
static FreeQ* freeq;        // in mmap'd memory
static uintptr_t heap_cur;
static volatile int heap_lock;
static bool heap_ready;
static u64 heap_live;

static void* map_at(uintptr_t at, size_t n) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)at) { const char m[] = "sim: cannot map fixed region\n"; (void)!write(2, m, sizeof m - 1); _exit(70); }
    return p;
}
static void heap_init() {
    if (heap_ready) return;
    heap_ready = true;
    map_at(HEAP_BASE, HEAP_SIZE);
    map_at(ADDR_MAP, HEAP_SIZE / 8);
    map_at(SHADOW_H, HEAP_SIZE / 8 * sizeof(Cell));
    freeq = (FreeQ*)mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    heap_cur = HEAP_BASE + 4096;
}
static inline int cls_of(size_t tot, size_t& csize) {
    if (tot <= 1024) { int c = (int)((tot + 15) / 16); csize = (size_t)c * 16; return c; }
    // geometric classes, 4 per power of two
    int lg = 63 - __builtin_clzll(tot);
    size_t base = 1ull << lg, q = base / 4;
    int k = (int)((tot - base + q - 1) / q);
    csize = base + k * q;
    if (k == 4) { lg++; k = 0; }
    return 64 + lg * 4 + k;
}
static inline uint8_t* amap(uintptr_t a) { return (uint8_t*)(ADDR_MAP + ((a - HEAP_BASE) >> 3)); }

static void clear_shadow(uintptr_t a, size_t n) {
    Cell* c = (Cell*)(SHADOW_H + ((a - HEAP_BASE) >> 3) * sizeof(Cell));
    size_t cells = (n + 7) / 8;
    if (cells > 65536) {
        // big block: drop the pages instead of touching them
        uintptr_t lo = ((uintptr_t)c + 4095) & ~4095ull, hi = (uintptr_t)(c + cells) & ~4095ull;
        if (hi > lo) madvise((void*)lo, hi - lo, MADV_DONTNEED);
        for (uintptr_t p = (uintptr_t)c; p < lo; p++) *(char*)p = 0;
        for (uintptr_t p = hi; p < (uintptr_t)(c + cells); p++) *(char*)p = 0;
        return;
    }
    for (size_t i = 0; i < cells; i++) for (int k = 0; k < 4; k++) c[i].s[k] = 0;
}

static void* heap_alloc(size_t n, size_t align) {
    if (n > (1ull << 30)) return nullptr;
    while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) {}
    heap_init();
    size_t pad = align > 16 ? align : 0;
    size_t tot = sizeof(Hdr) + n + RZ + pad, csize;
    int c = cls_of(tot, csize);
    FreeQ& q = freeq[c];
    uintptr_t blk;
    if (q.n > (csize <= 4096 ? 48u : csize <= 65536 ? 8u : 0u)) {
        Hdr* h = q.head;
        q.head = *(Hdr**)(h + 1);
        if (!q.head) q.tail = nullptr;
        q.n--;
        blk = (uintptr_t)h;
    } else {
        blk = heap_cur;
        if (heap_cur + csize > HEAP_BASE + HEAP_SIZE) { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); return nullptr; }
        heap_cur += (csize + 15) & ~15ull;
    }
    uintptr_t user = blk + sizeof(Hdr);
    if (pad) user = (user + align - 1) & ~(align - 1);
    Hdr* h = (Hdr*)(user - sizeof(Hdr));
    h->size = n; h->cls = (u32)c; h->magic = MAGIC_LIVE;
    if (pad) *(uintptr_t*)(user + ((n + 7) & ~7ull)) = blk;   // remembered after the block (inside red zone+pad)
    if (pad) h->cls |= 0x80000000u;
    uint8_t* m = amap(user);
    size_t full = n / 8;
    for (size_t i = 0; i < full; i++) m[i] = 8;
    if (n & 7) m[full] = n & 7;
    heap_live += n;
    __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE);
    clear_shadow(user, n);
    if (n <= (1 << 20)) { volatile char* f = (volatile char*)user; u64* w = (u64*)user; for (size_t i = 0; i < full; i++) w[i] = 0xCBCBCBCBCBCBCBCBull; for (size_t i = full * 8; i < n; i++) f[i] = (char)0xCB; }
    return (void*)user;
}
static void mem_error(const char* what, uintptr_t a, size_t n, uintptr_t pc);
static void heap_free(void* p) {
    if (!p) return;
    uintptr_t user = (uintptr_t)p;
    if (user - HEAP_BASE >= HEAP_SIZE) return;
    Hdr* h = (Hdr*)(user - sizeof(Hdr));
    if (h->magic != MAGIC_LIVE) {
        if (g && g_running) { RtGuard r; violation("memory-error", fmt("invalid or double free (block header %s)", h->magic == MAGIC_FREE ? "already freed" : "corrupt")); }
        abort();
    }
    while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) {}
    size_t n = h->size;
    u32 c = h->cls & 0x7fffffffu;
    uintptr_t blk = user - sizeof(Hdr);
    if (h->cls & 0x80000000u) blk = *(uintptr_t*)(user + ((n + 7) & ~7ull));
    uint8_t* m = amap(user);
    for (size_t i = 0; i < (n + 7) / 8; i++) m[i] = 0;
    h->magic = MAGIC_FREE;
    heap_live -= n;
    if (n <= (1 << 16)) { u64* w = (u64*)user; for (size_t i = 0; i < n / 8; i++) w[i] = 0xDDDDDDDDDDDDDDDDull; }
    Hdr* b = (Hdr*)blk;
    b->magic = MAGIC_FREE; b->cls = c;
    *(Hdr**)(b + 1) = nullptr;
    FreeQ& q = freeq[c];
    if (q.tail) *(Hdr**)(q.tail + 1) = b; else q.head = b;
    q.tail = b;
    q.n++;
    __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE);
}

// ============================================================ formatting / log
std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}
static void hash_add(u64& h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
static void hash_str(u64& h, const char* s) { u64 x = 1469598103934665603ull; while (*s) { x ^= (unsigned char)*s++; x *= 1099511628211ull; } hash_add(h, x); }

static void out(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t r = raw_syscall6(SYS_write, g->report_fd, (long)(s.data() + o), (long)(s.size() - o), 0, 0, 0); if (r <= 0) break; o += (size_t)r; } }

void log_event(const char* f, ...) {
    RtGuard r;
    char buf[512];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    hash_str(g->run_hash, buf);
    if (g->trace) out(fmt("[%10llu T%d] %s\n", (unsigned long long)g->step, t_fid, buf));
    if (g->tail.size() >= 40) g->tail.erase(g->tail.begin());
    g->tail.push_back(fmt("[%llu T%d] %s", (unsigned long long)g->step, t_fid, buf));
}
void event(const std::string& t) { log_event("%s", t.c_str()); }
void digest_bytes(const void* p, size_t n) {
    RtGuard r;
    u64 x = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) { x ^= ((const unsigned char*)p)[i]; x *= 1099511628211ull; }
    hash_add(g->run_hash, x);
}
void probe(const std::string& n, long add) { RtGuard r; g->probes[n] += add; }
const std::string& property() { return g->property; }

// ============================================================ parameters
static u64 hname(u64 seed, const std::string& n) {
    u64 h = seed * 0x9E3779B97F4A7C15ull + 12345;
    for (char c : n) { h ^= (unsigned char)c; h *= 1099511628211ull; h ^= h >> 31; }
    Rng r(h); r.next();
    return r.next();
}
static bool given(const std::string& n, long lo, long hi, long& v) {
    auto it = g->in.params.find(n);
    if (it != g->in.params.end()) { v = std::min(std::max(it->second, lo), hi); return true; }
    if (g->in.params_given) { v = lo; return true; }
    return false;
}
long P(const std::string& n, long lo, long hi) {
    RtGuard r; long v;
    if (!given(n, lo, hi, v)) v = lo + (long)(hname(g->in.seed, n) % (u64)(hi - lo + 1));
    g->rec.params[n] = v;
    return v;
}
long PL(const std::string& n, long lo, long hi) {
    RtGuard r; long v;
    if (!given(n, lo, hi, v)) {
        double u = (double)(hname(g->in.seed, n) >> 11) / 9007199254740992.0;
        double x = (double)lo * __builtin_pow((double)hi / (double)lo, u);
        v = std::min(std::max((long)(x + 0.5), lo), hi);
    }
    g->rec.params[n] = v;
    return v;
}
bool chance(const std::string& n, int pct) {
    RtGuard r; long v;
    if (!given(n, 0, 1, v)) v = (long)(hname(g->in.seed, n) % 100) < pct;
    g->rec.params[n] = v;
    return v != 0;
}

// ============================================================ faults
static const char* site_names[NSITES] = {"disk", "alloc", "thread", "source"};
const char* site_name(int s) { return site_names[s]; }
void fault_arm(int s, double rate, uint32_t mask, int maxf) {
    RtGuard r;
    SiteState& S = g->site[s];
    S.armed = true; S.rate = rate; S.mask = mask; S.maxf = maxf; 
    if (S.ops == 0) S.rng = Rng(g->in.schedseed * 77 + s * 1013 + 5);
    S.fired = 0;
}
void fault_disarm(int s) { g->site[s].armed = false; }
void fault_arm_alloc_workers(double rate, int maxf) { g->alloc_workers = true; fault_arm(S_ALLOC, rate, 1, maxf); }
int faults_fired(int s) { return g->site[s].fired; }
long site_ops(int s) { return g->site[s].ops; }
Fault fault_poll(int s, uint32_t legal, long arg_range) {
    RtGuard r;
    SiteState& S = g->site[s];
    Fault f;
    if (!S.armed) return f;
    long idx = S.ops++;
    if (g->in.explicit_mode) {
        for (auto& x : g->in.faults) if (x.site == s && x.idx == idx && (legal >> x.kind & 1)) {
            f.fire = true; f.kind = x.kind; f.arg = arg_range > 0 ? x.arg % arg_range : 0;
        }
    } else {
        u64 a = S.rng.next(), b = S.rng.next(), c = S.rng.next();
        uint32_t m = legal & S.mask;
        if (m && S.fired < S.maxf && (double)(a >> 11) / 9007199254740992.0 < S.rate) {
            int n = __builtin_popcount(m), k = (int)(b % n), kind = 0;
            for (int i = 0; i < 32; i++) if (m >> i & 1) { if (k == 0) { kind = i; break; } k--; }
            f.fire = true; f.kind = kind; f.arg = arg_range > 0 ? (long)(c % (u64)arg_range) : 0;
        }
    }
    if (f.fire) {
        S.fired++;
        g->rec.faults.push_back({s, idx, f.kind, f.arg});
        std::string nm = s == S_DISK ? std::string("disk.") + disk_fault_name(f.kind) : fmt("%s.%d", site_names[s], f.kind);
        g->fault_counts[nm]++;
        log_event("FAULT %s op=%ld arg=%ld", nm.c_str(), idx, f.arg);
    }
    return f;
}

// ============================================================ reporting
static std::string plan_text(bool with_schedule) {
    std::string o;
    o += "property " + g->property + "\n";
    o += "scenario " + g->in.scenario + "\n";
    o += fmt("seed %llu\n", (unsigned long long)g->in.seed);
    o += fmt("schedseed %llu\n", (unsigned long long)g->in.schedseed);
    o += with_schedule ? "mode explicit\n" : "mode seeded\n";
    for (auto& p : g->rec.params) o += fmt("param %s %ld\n", p.first.c_str(), p.second);
    if (with_schedule) {
        for (auto& f : g->rec.faults) o += fmt("fault %s %ld %d %ld\n", site_names[f.site], f.idx, f.kind, f.arg);
        for (auto& p : g->rec.picks) o += fmt("pick %ld %d\n", p.first, p.second);
        for (auto& s : g->rec.sw) o += fmt("switch %llu %d\n", (unsigned long long)s.step, s.to);
    }
    return o;
}
static void write_file(const std::string& path, const std::string& s) {
    int fd = (int)raw_syscall6(SYS_open, (long)path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644, 0, 0, 0);
    if (fd < 0) return;
    size_t o = 0;
    while (o < s.size()) { long r = raw_syscall6(SYS_write, fd, (long)(s.data() + o), (long)(s.size() - o), 0, 0, 0); if (r <= 0) break; o += (size_t)r; }
    raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
}
static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o;
}
static int g_exit_reporting;
// The simulated program ends early (abort, terminate, exit, failed assertion).  A scenario that
// simulates a whole program inspects what is left and the run ends there.
static DeathFn g_death;
static bool g_died;
void set_death_hook(DeathFn f) { g_death = f; }
[[noreturn]] static void program_ends(int status, const std::string& why) {
    ++t_rt;
    DeathFn f = g_death; g_death = nullptr;
    log_event("the program ends: %s", why.c_str());
    for (int i = 0; i < MAXT; i++) if (i != t_fid) g->thr[i].st = FREE;   // its other threads are gone
    g->nopreempt = true;
    f(status, why);
    g_died = true;
    __atomic_store_n(&g->run_done, 1, __ATOMIC_RELEASE);
    futex_wake(&g->run_done);
    for (;;) pause();
}
[[noreturn]] void violation(const std::string& kind, const std::string& detail) {
    ++t_rt;
    if (g_death && t_fid >= 0 && (kind == "terminate" || kind == "abort")) program_ends(134, detail);
    if (__atomic_exchange_n(&g_exit_reporting, 1, __ATOMIC_SEQ_CST)) for (;;) pause();
    if (!g->plan_out.empty()) write_file(g->plan_out, plan_text(true));
    std::string t;
    size_t from = g->tail.size() > 24 ? g->tail.size() - 24 : 0;
    for (size_t i = from; i < g->tail.size(); i++) t += (t.empty() ? "" : ", ") + ("\"" + esc(g->tail[i]) + "\"");
    out(fmt("\nVIOL {\"kind\": \"%s\", \"seed\": %llu, \"step\": %llu, \"hash\": \"%016llx\", \"detail\": \"", esc(kind).c_str(),
            (unsigned long long)g->in.seed, (unsigned long long)g->step, (unsigned long long)g->run_hash) +
        esc(detail) + "\", \"tail\": [" + t + "]}\n");
    raw_syscall6(SYS_exit_group, 10, 0, 0, 0, 0, 0);
    for (;;) {}
}
static void mem_error(const char* what, uintptr_t a, size_t n, uintptr_t pc) {
    RtGuard r;
    violation("memory-error", fmt("%s of %zu bytes, pc=0x%lx", what, n, (unsigned long)pc));
}

// ============================================================ scheduler
static bool runnable(int i) { return g->thr[i].st == RUN; }

static void wake_sleepers() {
    for (int i = 0; i < g->hi; i++) {
        Thr& t = g->thr[i];
        if ((t.st == SLEEP || (t.st == BLOCKED && t.timed)) && t.wake <= g->vtime_sleep + g->step * 10) {
            if (t.timed) t.timed_out = true;
            t.timed = false;
            t.st = RUN;
        }
    }
}
uint64_t now_ns() { return g->vtime + g->vtime_sleep + g->step * 10; }

static void handoff(int to) {      // give the token to `to`; the caller must then park or exit
    g->cur = to;
    Thr& t = g->thr[to];
    __atomic_store_n(&t.go, 1, __ATOMIC_RELEASE);
    futex_wake(&t.go);
}
static void park(int me) {
    Thr& t = g->thr[me];
    while (!__atomic_load_n(&t.go, __ATOMIC_ACQUIRE)) futex_wait(&t.go, 0);
    __atomic_store_n(&t.go, 0, __ATOMIC_RELAXED);
}
static void switch_to(int to) {
    int me = t_fid;
    if (to == me) return;
    g->nswitch++;
    hash_add(g->run_hash, g->step * 256 + (u64)to);
    hash_add(g->sched_hash, (u64)me * 256 + (u64)to);
    if (g->trace) out(fmt("[%10llu T%d] -> T%d\n", (unsigned long long)g->step, me, to));
    handoff(to);
    park(me);
}

static void set_next() {
    if (g->in.explicit_mode) {
        while (g->swi < g->in.sw.size() && g->in.sw[g->swi].step < g->step) g->swi++;
        g->next_event = g->swi < g->in.sw.size() ? g->in.sw[g->swi].step : ~0ull;
    } else if (g->strat == ST_RW || g->strat == ST_CONFLICT || g->strat == ST_STALL) {
        double u = g->sched.unit();
        double d = -__builtin_log(1.0 - u) * (double)g->mean;
        g->next_event = g->step + 1 + (u64)d;
    } else if (g->strat == ST_PCT) {
        g->next_event = ~0ull;
        for (u64 c : g->cps) if (c > g->step) { g->next_event = c; break; }
    } else g->next_event = ~0ull;
    if (g->next_event > g->budget) g->next_event = g->budget;
}

static std::string dump_threads() {
    std::string s;
    for (int i = 0; i < g->hi; i++) {
        Thr& t = g->thr[i];
        if (t.st == RUN) s += fmt(" T%d:runnable", i);
        if (t.st == BLOCKED) s += fmt(" T%d:waiting-for-%s", i, t.wait_what);
        if (t.st == SLEEP) s += fmt(" T%d:sleeping", i);
    }
    return s;
}

// choose among runnable threads when the current one cannot continue; -1 if none
static int pick_blocked() {
    for (int round = 0; round < 2; round++) {
        int list[MAXT], n = 0;
        for (int i = 0; i < g->hi; i++) if (runnable(i)) list[n++] = i;
        if (n) {
            long idx = g->pick_idx++;
            int c = list[0];
            if (n > 1) {
                if (g->in.explicit_mode) {
                    auto it = g->in.picks.find(idx);
                    if (it != g->in.picks.end() && runnable(it->second)) c = it->second;
                } else if (g->strat == ST_PCT) {
                    for (int k = 0; k < n; k++) if (g->thr[list[k]].prio > g->thr[c].prio) c = list[k];
                } else if (g->strat != ST_SERIAL) {
                    c = list[g->sched.below((u64)n)];
                    if (g->strat == ST_STALL && c == g->stall_tid) c = list[g->sched.below((u64)n)];
                }
                if (c != list[0]) g->rec.picks[idx] = c;
            }
            return c;
        }
        // nobody runnable: jump the simulated clock to the next sleeper
        u64 w = ~0ull;
        for (int i = 0; i < g->hi; i++) {
            Thr& t = g->thr[i];
            if (t.st == SLEEP || (t.st == BLOCKED && t.timed)) w = std::min(w, t.wake);
        }
        if (w == ~0ull) return -1;
        u64 nowv = g->vtime_sleep + g->step * 10;
        if (w > nowv) g->vtime_sleep += w - nowv;
        wake_sleepers();
    }
    return -1;
}

// current thread cannot continue (state already set)
static void block_current() {
    g->blocks++;
    while (g->thr[t_fid].st != RUN) {
        int n = pick_blocked();
        if (n < 0) violation("deadlock", "no simulated thread can run:" + dump_threads());
        if (n != t_fid) switch_to(n);
    }
}

// Fairness: a thread that goes through very many synchronisation points without ever leaving the
// processor is polling for something another thread has to do (a spin lock, a flag); every real
// scheduler runs that other thread eventually.  Returns true if it switched.
static const u32 SPIN_LIMIT = 8192;
static void to_next_runnable() {
    if (g->strat == ST_PCT && !g->in.explicit_mode) {
        int lo = 0;
        for (auto& t : g->thr) if (t.st != FREE) lo = std::min(lo, t.prio);
        g->thr[t_fid].prio = lo - 1;
    }
    for (int k = 1; k < g->hi; k++) {
        int c = (t_fid + k) % g->hi;
        if (runnable(c)) { g->rec.sw.push_back({g->step, c}); switch_to(c); return; }
    }
}
static bool spinning(u32 w) {
    if (g->spin_tid != t_fid || g->spin_sw != g->nswitch) { g->spin_tid = t_fid; g->spin_sw = g->nswitch; g->spin = 0; }
    g->spin += w;
    if (g->spin < SPIN_LIMIT) return false;
    g->spin = 0;
    return true;
}

static void do_switch_random() {
    int list[MAXT], n = 0;
    for (int i = 0; i < g->hi; i++) if (i != t_fid && runnable(i)) list[n++] = i;
    if (!n) return;
    int c = list[g->sched.below((u64)n)];
    if (g->strat == ST_STALL && c == g->stall_tid && g->sched.chance(0.9)) return;
    g->rec.sw.push_back({g->step, c});
    switch_to(c);
}

// slow path of a step
static void __attribute__((noinline)) point_slow(bool sync, bool conflict, u32 spin_weight = 1) {
    RtGuard r;
    if (g->step >= g->budget) violation("no-progress", fmt("step budget of %llu exhausted:%s", (unsigned long long)g->budget, dump_threads().c_str()));
    if (g->in.explicit_mode) {
        while (g->swi < g->in.sw.size() && g->in.sw[g->swi].step < g->step) g->swi++;
        if (g->swi < g->in.sw.size() && g->in.sw[g->swi].step == g->step) {
            int to = g->in.sw[g->swi++].to;
            set_next();
            if (to >= 0 && to < MAXT && to != t_fid && runnable(to)) { g->rec.sw.push_back({g->step, to}); switch_to(to); return; }
        } else if (g->step >= g->next_event) set_next();
        if (sync && !g->nopreempt && spinning(spin_weight)) to_next_runnable();
        return;
    }
    if (g->nopreempt) { if (g->step >= g->next_event) set_next(); return; }
    if (sync && spinning(spin_weight)) { if (g->step >= g->next_event) set_next(); to_next_runnable(); return; }
    switch (g->strat) {
    case ST_SERIAL: case NSTRAT: if (g->step >= g->next_event) set_next(); break;
    case ST_STALL:
        if (g->step >= g->next_event) {
            set_next();
            if (g->sched.chance(0.2)) { g->stall_tid = (int)g->sched.below(8); log_event("stall T%d", g->stall_tid); }
            do_switch_random();
        }
        break;
    case ST_RW:
        if (g->step >= g->next_event) { set_next(); do_switch_random(); }
        break;
    case ST_SYNC:
        if (g->step >= g->next_event) set_next();
        if (sync && g->sched.chance(g->p_sync)) do_switch_random();
        break;
    case ST_CONFLICT:
        if (g->step >= g->next_event) { set_next(); do_switch_random(); }
        else if (conflict && g->sched.chance(g->p_conf)) do_switch_random();
        else if (sync && g->sched.chance(g->p_sync)) do_switch_random();
        break;
    case ST_PCT: {
        bool change = g->step >= g->next_event;
        if (change) {
            int lo = 0;
            for (auto& t : g->thr) if (t.st != FREE) lo = std::min(lo, t.prio);
            g->thr[t_fid].prio = lo - 1;
            set_next();
        }
        if (change || sync) {
            int c = t_fid;
            for (int i = 0; i < g->hi; i++) if (runnable(i) && g->thr[i].prio > g->thr[c].prio) c = i;
            if (c != t_fid) { g->rec.sw.push_back({g->step, c}); switch_to(c); }
        }
        break;
    }
    }
}

void sync_point() { ++g->step; wake_sleepers(); point_slow(true, false); }
void yield_point() { if (act()) sync_point(); }
void no_preempt(bool on) { g->nopreempt = on; }

static void acquire(uintptr_t a) { auto it = g->sync.find(a); if (it != g->sync.end() && it->second.has) g->thr[t_fid].vc.join(it->second.vc); }
static void release(uintptr_t a) {
    SyncVar& s = g->sync[a];
    Thr& t = g->thr[t_fid];
    if (!s.has) { s.has = true; s.vc = t.vc; } else s.vc.join(t.vc);
    t.vc.c[t_fid]++;
    if (t.vc.c[t_fid] > g->max_clk) g->max_clk = t.vc.c[t_fid];
}
static void wake_waiters(const void* obj, int max = MAXT) {
    for (int i = 0; i < g->hi && max > 0; i++) {
        Thr& t = g->thr[i];
        if (t.st == BLOCKED && t.wait_obj == obj) { t.st = RUN; t.timed = false; t.wait_obj = nullptr; max--; }
    }
}
static void wait_on(const void* obj, const char* what) {
    Thr& t = g->thr[t_fid];
    t.st = BLOCKED; t.wait_obj = obj; t.wait_what = what;
    block_current();
}

// ============================================================ memory access oracle
static inline Cell* shadow_of(uintptr_t a) {
    if (a - HEAP_BASE < HEAP_SIZE) return (Cell*)SHADOW_H + ((a - HEAP_BASE) >> 3);
    if (a - STACK_BASE < STACK_TOT) return (Cell*)SHADOW_S + ((a - STACK_BASE) >> 3);
    if (a - data_lo < data_hi - data_lo) return (Cell*)SHADOW_D + ((a - data_lo) >> 3);
    return nullptr;
}

static void __attribute__((noinline)) report_race(uintptr_t a, unsigned n, bool w, int other, bool ow, u32 pc1, uintptr_t pc2) {
    RtGuard r;
    const char* where = a - HEAP_BASE < HEAP_SIZE ? "heap" : a - STACK_BASE < STACK_TOT ? "stack" : "global";
    violation("data-race", fmt("%s of %u bytes of %s memory by T%d at pc=0x%lx is unordered with earlier %s by T%d at pc=0x%x",
                               w ? "write" : "read", n, where, t_fid, (unsigned long)pc2, ow ? "write" : "read", other, pc1));
}

// returns true on a conflict (ordered or not) with another thread's access in this run
static inline bool cell_access(Cell* c, unsigned mask, bool w, uintptr_t a, unsigned n, uintptr_t pc) {
    const int me = t_fid;
    VC& vc = g->thr[me].vc;
    const u32 clk = vc.c[me];
    const u64 mine = (u64)clk | (u64)me << 32 | (u64)mask << 40 | (u64)w << 48 | 1ull << 49;
    int put = -1; bool done = false, conflict = false;
    for (int i = 0; i < 4; i++) {
        u64 s = c->s[i];
        if (s == mine) { done = true; continue; }
        if (!s) { if (put < 0) put = i; continue; }
        u32 oc = (u32)s;
        if (oc < g->base_clk) { c->s[i] = 0; if (put < 0) put = i; continue; }
        int ot = (int)(s >> 32 & 0xff);
        unsigned om = (unsigned)(s >> 40 & 0xff);
        bool ow = s >> 48 & 1;
        if (ot == me) {
            if (om == mask) {
                if (w || !ow) put = i;                      // newer and at least as strong
                else if (oc == clk) done = true;             // earlier write in the same epoch subsumes the read
            }
            continue;
        }
        if ((om & mask) && (w || ow)) {
            conflict = true;
            if (vc.c[ot] < oc && (g->options & OPT_RACE)) report_race(a, n, w, ot, ow, c->pc[i], pc);
        }
    }
    if (!done) {
        if (put < 0) {
            for (int i = 0; i < 4; i++) { u64 s = c->s[i]; int ot = (int)(s >> 32 & 0xff); if (ot != me && vc.c[ot] >= (u32)s) { put = i; break; } }
            if (put < 0) put = (int)(g->step & 3);
        }
        c->s[put] = mine; c->pc[put] = (u32)pc;
    }
    return conflict;
}

static inline void check_addressable(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (a - HEAP_BASE >= HEAP_SIZE) {
        if (a < 4096) { RtGuard r; mem_error(w ? "null-pointer write" : "null-pointer read", a, n, pc); }
        return;
    }
    uintptr_t e = a + n;
    for (uintptr_t x = a & ~7ull; x < e; x += 8) {
        unsigned m = *amap(x);
        uintptr_t hi = e < x + 8 ? e : x + 8;
        if (m < 8 && hi > x + m) { RtGuard r; mem_error(w ? "heap write outside any live block" : "heap read outside any live block", a, n, pc); }
    }
}

static inline void access(void* p, unsigned n, bool w, void* pcv) {
    if (!act()) return;
    uintptr_t a = (uintptr_t)p, pc = (uintptr_t)pcv;
    ++g->step;
    if (g->options & OPT_MEM) check_addressable(a, n, w, pc);
    bool conflict = false;
    Cell* c = shadow_of(a);
    if (c) {
        unsigned off = a & 7;
        if (off + n <= 8) conflict = cell_access(c, ((1u << n) - 1) << off, w, a, n, pc);
        else {
            unsigned left = n; uintptr_t x = a;
            while (left) {
                unsigned o = x & 7, k = std::min(8 - o, left);
                conflict |= cell_access(c, (((1u << k) - 1) << o) & 0xff, w, x, k, pc);
                x += k; left -= k; c++;
            }
        }
    }
    if (g->step >= g->next_event || (conflict && g->strat == ST_CONFLICT)) point_slow(false, conflict);
}
static void access_range(void* p, size_t n, bool w, void* pcv) {
    if (!act() || !n) return;
    uintptr_t a = (uintptr_t)p, pc = (uintptr_t)pcv;
    ++g->step;
    if (g->options & OPT_MEM) check_addressable(a, n, w, pc);
    uintptr_t e = a + n;
    bool conflict = false;
    if (shadow_of(a) && shadow_of(e - 1))
        for (uintptr_t x = a; x < e;) {
            unsigned o = x & 7; unsigned k = (unsigned)std::min<uintptr_t>(8 - o, e - x);
            conflict |= cell_access(shadow_of(x), (((1u << k) - 1) << o) & 0xff, w, x, k, pc);
            x += k;
        }
    if (g->step >= g->next_event || (conflict && g->strat == ST_CONFLICT)) point_slow(false, conflict);
}

// ============================================================ threads
static void set_altstack(int i);
static void thread_body(int fid) {
    t_fid = fid; t_rt = 1; set_altstack(fid);
    park(fid);
    Thr& t = g->thr[fid];
    t_rt = 0;
    try {
        t.ret = t.fn(t.arg);
    } catch (abi::__forced_unwind&) {
        throw;
    } catch (std::exception& e) {
        ++t_rt; std::string d = std::string("an exception left a thread started by the program: ") + e.what(); violation("terminate", d);
    } catch (...) {
        ++t_rt; violation("terminate", "an unknown exception left a thread started by the program");
    }
    ++t_rt;
    ++g->step;
    release((uintptr_t)&t);          // join edge
    t.st = DONE;
    log_event("exit");
    if (t.detached) { t.st = FREE; }
    for (int i = 0; i < g->hi; i++) { Thr& o = g->thr[i]; if (o.st == BLOCKED && o.wait_obj == &t) { o.st = RUN; o.wait_obj = nullptr; } }
    int n = pick_blocked();
    if (n < 0) violation("deadlock", "thread exit leaves nobody runnable:" + dump_threads());
    g->nswitch++;
    hash_add(g->run_hash, g->step * 256 + (u64)n);
    handoff(n);
    // stays t_rt>0: nothing that runs during real thread exit is simulated
}
static void* thread_entry(void* p) { thread_body((int)(intptr_t)p); return nullptr; }

static pthread_t start_real(int fid, int stk) {
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(STACK_BASE + (uintptr_t)stk * STACK_SZ + 4096), STACK_SZ - 4096);
    pthread_t th;
    int e = real_pthread_create(&th, &at, thread_entry, (void*)(intptr_t)fid);
    pthread_attr_destroy(&at);
    if (e) { out(fmt("sim: real pthread_create failed: %d\n", e)); _exit(71); }
    return th;
}
static int alloc_stack() {       // round robin, so that slots are rarely reused within a run
    for (int k = 0; k < NSTK; k++) {
        int i = (g->stk_next + k) % NSTK;
        if (g->stk_used[i]) continue;
        g->stk_used[i] = true; g->stk_next = i + 1;
        if (g->stk_dirty[i]) madvise((void*)(SHADOW_S + (uintptr_t)i * STACK_SZ / 8 * sizeof(Cell)), STACK_SZ / 8 * sizeof(Cell), MADV_DONTNEED);
        g->stk_dirty[i] = true;
        return i;
    }
    return -1;
}

static void init_thr(int fid) {
    Thr& t = g->thr[fid];
    t = Thr();
    for (int i = 0; i < MAXT; i++) t.vc.c[i] = g->base_clk - 1;
}

int self() { return t_fid; }
uint64_t steps() { return g->step; }
uint64_t blocked_count() { return g->blocks; }
int live_threads() { int n = 0; for (int i = 1; i < MAXT; i++) { State s = g->thr[i].st; if (s == RUN || s == BLOCKED || s == SLEEP) n++; } return n; }
int created_threads() { return g->created; }
void set_cpu_count(int n) { g->cpus = n; }
int cpu_count() { return g->cpus; }
void set_rand_seed(uint64_t s) { g->rnd_base = s; g->rnd_stream = 0; g->rnd = Rng(s); }
void set_rand_extreme(int pm) { g->rnd_extreme = pm; }
void set_step_budget(uint64_t n) { g->budget = g->step + (u64)g->created * 1000 + n; set_next(); }
bool active() { return act(); }
void enter() { if (t_fid >= 0) { --t_rt; } }
void leave() { if (t_fid >= 0) { ++t_rt; } }
void sleep_ns(uint64_t ns) {
    if (!act()) return;
    RtGuard r;
    ++g->step;
    Thr& t = g->thr[t_fid];
    t.wake = g->vtime_sleep + g->step * 10 + ns;
    t.st = SLEEP; t.wait_what = "sleep";
    block_current();
}

} // namespace sim

// ============================================================ interposed libc / pthread / tsan entry points
using namespace sim;

extern "C" {

// ---- malloc family
void* malloc(size_t n) {
    if (n > ((size_t)32 << 20) && act()) { errno = ENOMEM; return nullptr; }   // memory limit of the simulated process
    if (act() && g->site[S_ALLOC].armed && (t_fid > 0 || !g->alloc_workers)) {
        Fault f = fault_poll(S_ALLOC, 1, 0);
        if (f.fire) { errno = ENOMEM; return nullptr; }
    }
    void* p = heap_alloc(n, 16);
    if (!p) errno = ENOMEM;
    return p;
}
void free(void* p) { heap_free(p); }
void* calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void* p = malloc(n);
    if (p) { volatile char* c = (volatile char*)p; for (size_t i = 0; i < n; i++) c[i] = 0; }
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    void* q = malloc(n);
    if (!q) return nullptr;
    size_t old = ((Hdr*)p - 1)->size;
    const char* s = (const char*)p; char* d = (char*)q;
    for (size_t i = 0; i < (old < n ? old : n); i++) d[i] = s[i];
    free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return heap_alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = heap_alloc(n, al); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }

// ---- tsan callbacks
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access_range(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access_range(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

static inline void at_begin(const volatile void* a) { if (act()) { RtGuard r; ++g->step; point_slow(true, false); acquire((uintptr_t)a); } }
static inline void at_end(const volatile void* a) { if (act()) { RtGuard r; release((uintptr_t)a); } }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { at_begin(a); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { at_begin(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); at_end(a); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { at_begin(a); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_end(a); return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { at_begin(a); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); at_end(a); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { at_begin(a); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); at_end(a); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { at_begin(a); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_end(a); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { at_begin(a); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_end(a); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { at_begin(a); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_end(a); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { at_begin(a); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); at_end(a); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { at_begin(a); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_end(a); return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { at_begin(a); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_end(a); return ok; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { at_begin(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_end(a); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (act()) { RtGuard r; ++g->step; point_slow(true, false); acquire(1); release(1); } }
void __tsan_atomic_signal_fence(int) {}

// ---- mem* called from instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (act()) { access_range((void*)s, n, false, PC); access_range(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (act()) { access_range((void*)s, n, false, PC); access_range(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (act()) access_range(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (act()) { access_range((void*)a, n, false, PC); access_range((void*)b, n, false, PC); } return __real_memcmp(a, b, n); }

} // extern "C"
#include "libstdcxx.inc"
extern "C" {

// ---- threads
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!act()) { if (!real_pthread_create) resolve_reals(); return real_pthread_create(th, attr, fn, arg); }
    RtGuard r;
    ++g->step; wake_sleepers(); point_slow(true, false);
    Fault f = fault_poll(S_THREAD, 1, 0);
    if (f.fire) return EAGAIN;
    int fid = -1;
    for (int k = 0; k < MAXT - 1; k++) { int i = 1 + (g->fid_next - 1 + k) % (MAXT - 1); if (g->thr[i].st == FREE) { fid = i; g->fid_next = i + 1; if (fid >= g->hi) g->hi = fid + 1; break; } }
    int stk = fid >= 0 ? alloc_stack() : -1;
    if (fid < 0 || stk < 0) { g->probes["thread.limit"]++; return EAGAIN; }
    u32 own = g->thr[fid].vc.c[fid];
    init_thr(fid);
    Thr& t = g->thr[fid];
    t.fn = fn; t.arg = arg; t.serial = ++g->thread_serial;
    t.vc = g->thr[t_fid].vc;
    t.vc.c[fid] = std::max(own, g->base_clk) + 1;
    if (t.vc.c[fid] > g->max_clk) g->max_clk = t.vc.c[fid];
    g->thr[t_fid].vc.c[t_fid]++;
    if (g->thr[t_fid].vc.c[t_fid] > g->max_clk) g->max_clk = g->thr[t_fid].vc.c[t_fid];
    t.prio = g->strat == ST_PCT ? (int)g->sched.below(1000) + 1 : 0;
    t.stk = stk;
    t.st = RUN;
    g->created++;
    log_event("create T%d", fid);
    // starting a thread is work too: an endless loop that only starts and joins threads makes few steps
    if (g->step + (u64)g->created * 1000 >= g->budget) violation("no-progress", fmt("work budget of %llu steps exhausted at step %llu with %d threads started:%s", (unsigned long long)g->budget, (unsigned long long)g->step, g->created, dump_threads().c_str()));
    t.real = start_real(fid, stk);
    *th = (pthread_t)(0x5100000000ull + (u64)fid * 0x1000000 + (u64)(t.serial & 0xffffff));
    ++g->step; point_slow(true, false);
    return 0;
}
static int fid_of(pthread_t th) {
    u64 v = (u64)th;
    if ((v >> 32) != 0x51) return -1;
    int fid = (int)(v >> 24 & 0xff);
    if (fid <= 0 || fid >= MAXT || (g->thr[fid].serial & 0xffffff) != (long)(v & 0xffffff)) return -1;
    return fid;
}
int pthread_join(pthread_t th, void** ret) {
    if (!act()) return real_pthread_join(th, ret);
    RtGuard r;
    ++g->step; wake_sleepers(); point_slow(true, false);
    int fid = fid_of(th);
    if (fid < 0 || g->thr[fid].st == FREE) return ESRCH;
    if (fid == t_fid) return EDEADLK;
    Thr& t = g->thr[fid];
    while (t.st != DONE) wait_on(&t, "join");
    acquire((uintptr_t)&t);
    if (ret) *ret = t.ret;
    real_pthread_join(t.real, nullptr);
    g->stk_used[t.stk] = false;
    u32 own = t.vc.c[fid];
    t.st = FREE; t.vc.c[fid] = own;
    log_event("join T%d", fid);
    return 0;
}
int pthread_detach(pthread_t th) {
    if (!act()) return real_pthread_detach(th);
    RtGuard r;
    ++g->step;
    int fid = fid_of(th);
    if (fid < 0) return ESRCH;
    Thr& t = g->thr[fid];
    t.detached = true;                    // stack slot is not reused within the run
    real_pthread_detach(t.real);
    if (t.st == DONE) t.st = FREE;
    return 0;
}
pthread_t pthread_self(void) {
    if (!act()) { if (!real_pthread_self) resolve_reals(); return real_pthread_self(); }
    return (pthread_t)(0x5100000000ull + (u64)t_fid * 0x1000000 + (u64)(g->thr[t_fid].serial & 0xffffff));
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }

// ---- mutexes
static int mtx_lock(pthread_mutex_t* m, bool try_only) {
    if (m->__data.__lock && m->__data.__owner == t_fid + 1) {
        if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; }
        if (try_only) return EBUSY;
        if (m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        violation("deadlock", "a thread locks a mutex it already holds");
    }
    while (m->__data.__lock) {
        if (try_only) return EBUSY;
        wait_on(m, "mutex");
    }
    m->__data.__lock = 1; m->__data.__owner = t_fid + 1; m->__data.__count = 1;
    acquire((uintptr_t)m);
    return 0;
}
static void mtx_unlock(pthread_mutex_t* m) {
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP && m->__data.__count > 1) { m->__data.__count--; return; }
    release((uintptr_t)m);
    m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
    wake_waiters(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!act()) { if (!real_pthread_mutex_lock) resolve_reals(); return real_pthread_mutex_lock(m); }
    RtGuard r;
    ++g->step; wake_sleepers(); point_slow(true, false);
    int e = mtx_lock(m, false);
    hash_add(g->sched_hash, 1000 + (u64)t_fid);
    return e;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!act()) { if (!real_pthread_mutex_trylock) resolve_reals(); return real_pthread_mutex_trylock(m); }
    RtGuard r;
    ++g->step; wake_sleepers(); point_slow(true, false);
    return mtx_lock(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!act()) { if (!real_pthread_mutex_unlock) resolve_reals(); return real_pthread_mutex_unlock(m); }
    RtGuard r;
    mtx_unlock(m);
    ++g->step; wake_sleepers(); point_slow(true, false);
    return 0;
}
// ---- condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 deadline) {
    Thr& t = g->thr[t_fid];
    mtx_unlock(m);
    t.st = BLOCKED; t.wait_obj = c; t.wait_what = "condition"; t.timed = timed; t.timed_out = false; t.wake = deadline;
    block_current();
    bool to = t.timed_out; t.timed_out = false; t.timed = false;
    acquire((uintptr_t)c);
    mtx_lock(m, false);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!act()) return real_pthread_cond_wait(c, m);
    RtGuard r; ++g->step;
    return cond_wait(c, m, false, 0);
}
static u64 abs_to_rel_deadline(const struct timespec* ts) {
    u64 a = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
    return a > g->vtime ? a - g->vtime : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    RtGuard r; ++g->step;
    return cond_wait(c, m, true, abs_to_rel_deadline(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    RtGuard r; ++g->step;
    return cond_wait(c, m, true, abs_to_rel_deadline(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!act()) return real_pthread_cond_signal(c);
    RtGuard r; ++g->step; release((uintptr_t)c);
    int list[MAXT], n = 0;
    for (int i = 0; i < MAXT; i++) if (g->thr[i].st == BLOCKED && g->thr[i].wait_obj == c) list[n++] = i;
    if (n) { Thr& t = g->thr[list[0]]; t.st = RUN; t.wait_obj = nullptr; t.timed = false; }
    point_slow(true, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!act()) return real_pthread_cond_broadcast(c);
    RtGuard r; ++g->step; release((uintptr_t)c); wake_waiters(c); point_slow(true, false);
    return 0;
}
// ---- rwlocks: __pad3 counts readers (glibc does not use it, so that real use by the harness in between does not disturb), __cur_writer = fid+1 of the writer
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!act()) return real_pthread_rwlock_rdlock(l);
    RtGuard r; ++g->step; point_slow(true, false);
    while (l->__data.__cur_writer) wait_on(l, "rwlock");
    l->__data.__pad3++; acquire((uintptr_t)l);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!act()) return real_pthread_rwlock_wrlock(l);
    RtGuard r; ++g->step; point_slow(true, false);
    while (l->__data.__cur_writer || l->__data.__pad3) wait_on(l, "rwlock");
    l->__data.__cur_writer = t_fid + 1; acquire((uintptr_t)l); acquire((uintptr_t)l + 1);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!act()) return real_pthread_rwlock_unlock(l);
    RtGuard r; ++g->step;
    if (l->__data.__cur_writer == t_fid + 1) { release((uintptr_t)l); l->__data.__cur_writer = 0; }
    else { release((uintptr_t)l + 1); l->__data.__pad3--; }
    wake_waiters(l);
    point_slow(true, false);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!act()) return real_pthread_rwlock_tryrdlock(l);
    RtGuard r; ++g->step; point_slow(true, false);
    if (l->__data.__cur_writer) return EBUSY;
    l->__data.__pad3++; acquire((uintptr_t)l);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!act()) return real_pthread_rwlock_trywrlock(l);
    RtGuard r; ++g->step; point_slow(true, false);
    if (l->__data.__cur_writer || l->__data.__pad3) return EBUSY;
    l->__data.__cur_writer = t_fid + 1; acquire((uintptr_t)l); acquire((uintptr_t)l + 1);
    return 0;
}
// a wait with a deadline: true if woken, false if the simulated time ran out
static bool timed_wait_on(const void* obj, const char* what, u64 deadline) {
    Thr& t = g->thr[t_fid];
    t.st = BLOCKED; t.wait_obj = obj; t.wait_what = what; t.timed = true; t.timed_out = false; t.wake = deadline;
    block_current();
    bool to = t.timed_out; t.timed_out = false; t.timed = false;
    return !to;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    if (!act()) return pthread_mutex_lock(m);
    RtGuard r;
    ++g->step; wake_sleepers(); point_slow(true, false);
    const u64 dl = abs_to_rel_deadline(ts);
    for (;;) {
        int e = mtx_lock(m, true);
        if (e != EBUSY) return e;
        if (!timed_wait_on(m, "mutex", dl)) return ETIMEDOUT;
    }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const struct timespec* ts) {
    if (!act()) return pthread_rwlock_rdlock(l);
    RtGuard r; ++g->step; point_slow(true, false);
    const u64 dl = abs_to_rel_deadline(ts);
    while (l->__data.__cur_writer) if (!timed_wait_on(l, "rwlock", dl)) return ETIMEDOUT;
    l->__data.__pad3++; acquire((uintptr_t)l);
    return 0;
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const struct timespec* ts) {
    if (!act()) return pthread_rwlock_wrlock(l);
    RtGuard r; ++g->step; point_slow(true, false);
    const u64 dl = abs_to_rel_deadline(ts);
    while (l->__data.__cur_writer || l->__data.__pad3) if (!timed_wait_on(l, "rwlock", dl)) return ETIMEDOUT;
    l->__data.__cur_writer = t_fid + 1; acquire((uintptr_t)l); acquire((uintptr_t)l + 1);
    return 0;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { return pthread_rwlock_clockrdlock(l, CLOCK_REALTIME, ts); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { return pthread_rwlock_clockwrlock(l, CLOCK_REALTIME, ts); }
// ---- semaphores: the value is in the first word, as in glibc
static u32& sem_val(sem_t* s) { return *(u32*)s; }
int sem_init(sem_t* s, int, unsigned v) { memset(s, 0, sizeof *s); sem_val(s) = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_getvalue(sem_t* s, int* v) { *v = (int)sem_val(s); return 0; }
int sem_post(sem_t* s) {
    if (!act()) { __atomic_add_fetch(&sem_val(s), 1, __ATOMIC_SEQ_CST); return 0; }
    RtGuard r; ++g->step; release((uintptr_t)s); sem_val(s)++; wake_waiters(s); point_slow(true, false);
    return 0;
}
static int sem_take(sem_t* s, bool try_only, const struct timespec* ts) {
    if (!act()) { if (!sem_val(s)) { errno = EAGAIN; return -1; } sem_val(s)--; return 0; }
    RtGuard r; ++g->step; wake_sleepers(); point_slow(true, false);
    while (!sem_val(s)) {
        if (try_only) { errno = EAGAIN; return -1; }
        if (!ts) wait_on(s, "semaphore");
        else if (!timed_wait_on(s, "semaphore", abs_to_rel_deadline(ts))) { errno = ETIMEDOUT; return -1; }
    }
    sem_val(s)--; acquire((uintptr_t)s);
    return 0;
}
int sem_wait(sem_t* s) { return sem_take(s, false, nullptr); }
int sem_trywait(sem_t* s) { return sem_take(s, true, nullptr); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_take(s, false, ts); }
int sem_clockwait(sem_t* s, clockid_t, const struct timespec* ts) { return sem_take(s, false, ts); }
// ---- barriers
struct Bar { u32 need, in, gen, pad; };
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { if (!n) return EINVAL; *(Bar*)b = Bar{n, 0, 0, 0}; return 0; }
int pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int pthread_barrier_wait(pthread_barrier_t* bp) {
    Bar* b = (Bar*)bp;
    if (!act()) return b->need == 1 ? PTHREAD_BARRIER_SERIAL_THREAD : EINVAL;
    RtGuard r; ++g->step; release((uintptr_t)b); point_slow(true, false);
    const u32 gen = b->gen;
    bool last = ++b->in == b->need;
    if (last) { b->in = 0; b->gen++; wake_waiters(b); }
    else while (b->gen == gen) wait_on(b, "barrier");
    acquire((uintptr_t)b);
    return last ? PTHREAD_BARRIER_SERIAL_THREAD : 0;
}
// ---- spin locks
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) {
    if (!act()) return __atomic_exchange_n(l, 1, __ATOMIC_SEQ_CST) ? EBUSY : 0;
    RtGuard r; ++g->step; wake_sleepers(); point_slow(true, false);
    if (*l) return EBUSY;
    *l = 1; acquire((uintptr_t)l);
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) {
    if (!act()) { while (__atomic_exchange_n(l, 1, __ATOMIC_SEQ_CST)) {} return 0; }
    RtGuard r; ++g->step; wake_sleepers(); point_slow(true, false);
    while (*l) wait_on((const void*)l, "spin lock");
    *l = 1; acquire((uintptr_t)l);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
    if (!act()) { __atomic_store_n(l, 0, __ATOMIC_SEQ_CST); return 0; }
    RtGuard r; ++g->step; release((uintptr_t)l); *l = 0; wake_waiters((const void*)l); point_slow(true, false);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!act()) { if (!real_pthread_once) resolve_reals(); return real_pthread_once(o, fn); }
    {
        RtGuard r; ++g->step; point_slow(true, false);
        for (;;) {
            if (*o == 2) { acquire((uintptr_t)o); return 0; }
            if (*o == 0) { *o = 1; break; }
            wait_on(o, "once");
        }
    }
    try { fn(); } catch (...) { RtGuard r; *o = 0; wake_waiters(o); throw; }
    RtGuard r;
    release((uintptr_t)o); *o = 2; wake_waiters(o);
    return 0;
}
// ---- function-local statics
int __cxa_guard_acquire(u64* gd) {
    volatile char* b = (volatile char*)gd;
    if (!act()) { if (b[0]) return 0; b[1] = 1; return 1; }
    RtGuard r; ++g->step; point_slow(true, false);
    for (;;) {
        if (b[0]) { acquire((uintptr_t)gd); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        wait_on((void*)gd, "static-init");
    }
}
void __cxa_guard_release(u64* gd) {
    volatile char* b = (volatile char*)gd;
    if (act()) { RtGuard r; release((uintptr_t)gd); b[0] = 1; b[1] = 0; wake_waiters((void*)gd); return; }
    b[0] = 1; b[1] = 0;
}
void __cxa_guard_abort(u64* gd) {
    volatile char* b = (volatile char*)gd;
    b[1] = 0;
    if (act()) { RtGuard r; wake_waiters((void*)gd); }
}
// ---- futex (std::future)
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && act()) {
        int op = (int)a[1] & FUTEX_CMD_MASK;
        u32* p = (u32*)a[0];
        RtGuard r; ++g->step; point_slow(true, false);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != (u32)a[2]) { errno = EAGAIN; return -1; }
            Thr& t = g->thr[t_fid];
            const struct timespec* ts = (const struct timespec*)a[3];
            t.st = BLOCKED; t.wait_obj = p; t.wait_what = "futex"; t.timed = false; t.timed_out = false;
            if (ts) {
                t.timed = true;
                t.wake = op == FUTEX_WAIT ? g->vtime_sleep + g->step * 10 + (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec : abs_to_rel_deadline(ts);
            }
            block_current();
            acquire((uintptr_t)p);
            if (t.timed_out) { t.timed_out = false; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            release((uintptr_t)p);
            wake_waiters(p, (int)std::min<long>(a[2], MAXT));
            return 0;
        }
    }
    long e = raw_syscall6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (e < 0 && e > -4096) { errno = (int)-e; return -1; }
    return e;
}

// ---- time
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!act()) { long e = raw_syscall6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if (e) { errno = (int)-e; return -1; } return 0; }
    u64 t = now_ns();
    ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec* ts, struct timespec*) {
    if (!act()) return (int)raw_syscall6(SYS_nanosleep, (long)ts, 0, 0, 0, 0, 0);
    sim::sleep_ns((u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) {
    if (!act()) return 0;
    u64 v = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
    if (flags) { u64 n = now_ns(); v = v > n ? v - n : 0; }
    sim::sleep_ns(v);
    return 0;
}
int usleep(unsigned us) { if (act()) sim::sleep_ns((u64)us * 1000); return 0; }
int sched_yield(void) { if (act()) { RtGuard r; ++g->step; wake_sleepers(); point_slow(true, false, SPIN_LIMIT / 8); return 0; } return (int)raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int get_nprocs(void) { return g ? g->cpus : 1; }

// ---- randomness
void srand(unsigned) { if (g) { g->rnd_stream++; g->rnd = Rng(g->rnd_base * 0x9E3779B97F4A7C15ull + g->rnd_stream * 0xD1B54A32D192ED03ull); } }
int rand(void) {
    if (!g) return 4;
    int v = (int)(g->rnd.next() >> 33);
    if (g->rnd_extreme && act()) {
        long d = (long)(g->rnd.next() % 1000);
        if (d < g->rnd_extreme) { v = (d & 1) ? RAND_MAX : 0; RtGuard r; g->probes["rand.extreme"]++; }
    }
    return v;
}
int getentropy(void* b, size_t n) { for (size_t i = 0; i < n; i++) ((char*)b)[i] = (char)(g ? g->rnd.next() : 7); return 0; }
uint32_t arc4random(void) { return (uint32_t)(g ? g->rnd.next() : 7); }

// ---- abnormal ends
void exit(int code) {
    if (g && g_running && t_fid >= 0) {
        ++t_rt;
        if (g_death) program_ends(code, fmt("exit(%d) called", code));
        violation("exit", fmt("exit(%d) called", code));
    }
    static auto r = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    r(code);
    for (;;) {}
}
void abort(void) {
    if (g && g_running && t_fid >= 0) { ++t_rt; violation("abort", "abort() called"); }
    raw_syscall6(SYS_exit_group, 72, 0, 0, 0, 0, 0);
    for (;;) {}
}
} // extern "C"

// std::random_device
namespace std { class random_device_sim_; }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)(g ? g->rnd.next() : 7); }

// An assertion failure ends the process.  Where a scenario declares that outcome
// acceptable (fail-stop on corrupt input) it is modelled as an exception so that
// the simulation can go on with the next "process".
namespace sim {
static bool g_allow_assert = false;
void allow_assert(bool on) { g_allow_assert = on; }
}
extern "C" void __sim_assert_fail(const char* e, const char* f, unsigned l) {
    std::string d;
    {
        RtGuard r;
        const char* b = strrchr(f, '/');
        d = fmt("assertion `%s' failed at %s:%u", e, b ? b + 1 : f, l);
        if (!g) { fprintf(stderr, "%s\n", d.c_str()); _exit(73); }
        if (g_running && t_fid >= 0) {
            log_event("%s", d.c_str());
            if (!g_allow_assert || g_death) violation("abort", d);
            g->probes["assert"]++;
        }
    }
    throw sim::AssertionFailed{d};
}

// ============================================================ run loop
namespace sim {

static void on_terminate() {
    ++t_rt;
    std::string d = "std::terminate called";
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (std::exception& x) { d += std::string(": ") + x.what(); }
        catch (AssertionFailed& x) { d += ": " + x.what; }
        catch (...) { d += ": unknown exception"; }
    }
    if (g && g_running) violation("terminate", d);
    raw_syscall6(SYS_write, 2, (long)d.c_str(), (long)d.size(), 0, 0, 0);
    _exit(74);
}


static char g_altstk[NSTK][32 << 10];
static void set_altstack(int i) {
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = g_altstk[i]; ss.ss_size = sizeof g_altstk[i];
    sigaltstack(&ss, nullptr);
}
static void on_signal(int sig) {
    ++t_rt;
    if (sig == SIGXCPU) violation("no-progress", "the run used up its CPU time without reaching another simulation step limit");
    violation("crash", fmt("the program died with signal %d (%s)", sig, sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic fault" : "fault"));
}
static void child_limits() {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
    struct rlimit rl = {60, 70}; setrlimit(RLIMIT_CPU, &rl);
}
static std::string sample_json() {
    std::string t = fmt("{\"seed\": %llu, \"strategy\": \"%s\", \"steps\": %llu, \"switches\": %ld, \"threads_created\": %d, \"params\": {", (unsigned long long)g->in.seed, strat_names[g->strat], (unsigned long long)g->step, g->nswitch, g->created);
    bool first = true; int np = 0;
    for (auto& p : g->rec.params) { if (++np > 40) break; t += fmt("%s\"%s\": %ld", first ? "" : ", ", p.first.c_str(), p.second); first = false; }
    t += "}, \"faults\": [";
    first = true; int nf = 0;
    for (auto& f : g->rec.faults) { if (++nf > 10) break; t += fmt("%s\"%s#%ld %s\"", first ? "" : ", ", site_names[f.site], f.idx, f.site == S_DISK ? disk_fault_name(f.kind) : "fail"); first = false; }
    t += "], \"last_events\": [";
    first = true; size_t from = g->tail.size() > 6 ? g->tail.size() - 6 : 0;
    for (size_t i = from; i < g->tail.size(); i++) { t += (first ? "\"" : ", \"") + esc(g->tail[i]) + "\""; first = false; }
    return t + "]}";
}

static void* run_thread(void*) {
    t_fid = 0; t_rt = 1; set_altstack(0);
    g->thr[0].st = RUN;
    try {
        g->spec->body();
    } catch (std::exception& e) {
        violation("harness-exception", std::string("uncaught in scenario: ") + e.what());
    } catch (AssertionFailed& e) {
        violation("abort", e.what);
    }
    // let leftover threads finish (bounded): a thread that never ends is a violation
    g->thr[0].st = BLOCKED; g->thr[0].wait_what = "end of run"; g->thr[0].wait_obj = nullptr;
    while (live_threads() > 0) {
        int n = pick_blocked();
        if (n < 0) violation("deadlock", "threads left behind at the end of the run:" + dump_threads());
        // run thread n until it blocks or ends; it returns the token to us only if we are runnable
        g->thr[0].st = RUN;
        handoff(n);
        park(0);
        g->thr[0].st = BLOCKED;
    }
    g->thr[0].st = FREE;
    __atomic_store_n(&g->run_done, 1, __ATOMIC_RELEASE);
    futex_wake(&g->run_done);
    return nullptr;
}

static void setup_strategy() {
    Rng r(g->in.schedseed ^ 0xabcdef12345ull);
    g->sched = Rng(r.next());
    int k = (int)r.below(100);
    // swarm: a different scheduling strategy and intensity per run
    if (k < 5) g->strat = ST_SERIAL;
    else if (k < 35) g->strat = ST_RW;
    else if (k < 55) g->strat = ST_PCT;
    else if (k < 70) g->strat = ST_SYNC;
    else if (k < 92) g->strat = ST_CONFLICT;
    else g->strat = ST_STALL;
    g->p_sync = (double[]){0.05, 0.2, 0.5, 0.9}[r.below(4)];
    g->p_conf = (double[]){0.02, 0.1, 0.3}[r.below(3)];
    double e = r.unit();
    g->mean = (u64)(30.0 * __builtin_pow(1000.0, e));      // 30 .. 30000
    if (g->strat == ST_CONFLICT) { g->mean = (u64)(2000.0 * __builtin_pow(20.0, e)); g->p_sync *= 0.3; }
    g->cps.clear();
    if (g->strat == ST_PCT) {
        int d = 1 + (int)r.below(6);
        double span = 500.0 * __builtin_pow(2000.0, r.unit());  // 5e2 .. 1e6
        for (int i = 0; i < d; i++) g->cps.push_back((u64)(r.unit() * span));
        std::sort(g->cps.begin(), g->cps.end());
        g->thr[0].prio = 2000;
        if (r.chance(0.5)) g->thr[0].prio = (int)r.below(1000);
    }
}

static void do_run(const RunSpec* spec) {
    ++t_rt;
    g->spec = spec;
    g->options = spec->options;
    g->base_clk = ++g->max_clk + 1; g->max_clk = g->base_clk + 1;
    for (int i = 0; i < MAXT; i++) init_thr(i);
    for (int i = 0; i < NSTK; i++) g->stk_used[i] = g->stk_dirty[i] = false;
    g->stk_next = g->fid_next = g->hi = 1;
    g->thr[0].vc.c[0] = g->base_clk;
    g->cur = 0; g->step = 0; g->budget = spec->step_budget; g->swi = 0; g->pick_idx = 0;
    g->vtime = 1700000000ull * 1000000000ull + (g->in.seed % 1000) * 1000003ull; g->vtime_sleep = 0;
    g->created = 0; g->blocks = 0; g->nswitch = 0; g->spin = 0; g->spin_tid = -1; g->spin_sw = -1; g->run_hash = 1; g->sched_hash = 1; g->nopreempt = false; g->alloc_workers = false;
    g->rec = Plan(); g->rec.scenario = g->in.scenario;
    for (auto& s : g->site) s = SiteState();
    set_rand_seed(g->in.seed + 17); g->rnd_extreme = 0; g->cpus = 4; g_allow_assert = false;
    g->sync.clear(); g->tail.clear();
    fs_run_reset();
    setup_strategy();
    set_next();
    g->run_done = 0;
    g->stk_used[0] = true;
    g_running = true;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(STACK_BASE + 4096), STACK_SZ - 4096);
    pthread_t th;
    if (int e = real_pthread_create(&th, &at, run_thread, nullptr)) { out(fmt("sim: cannot start run thread: %d\n", e)); _exit(75); }
    pthread_attr_destroy(&at);
    while (!__atomic_load_n(&g->run_done, __ATOMIC_ACQUIRE)) futex_wait(&g->run_done, 0);
    if (!g_died) real_pthread_join(th, nullptr);
    g_running = false;
    hash_add(g->run_hash, g->step);
    g->total_steps += g->step;
    g->total_vtime += g->vtime_sleep + g->step * 10;
    g->total_switch += (u64)g->nswitch;
    --t_rt;
}

static bool load_plan(const char* path, Plan& p) {
    FILE* f = ::fopen(path, "r");
    if (!f) return false;
    char line[1024];
    while (fgets(line, sizeof line, f)) {
        char a[256], b[256]; long x, y, z; unsigned long long u; int t;
        if (sscanf(line, "scenario %255s", a) == 1) p.scenario = a;
        else if (sscanf(line, "property %255s", a) == 1) g->property = a;
        else if (sscanf(line, "seed %llu", &u) == 1) p.seed = u;
        else if (sscanf(line, "schedseed %llu", &u) == 1) p.schedseed = u;
        else if (sscanf(line, "mode %255s", a) == 1) { p.explicit_mode = !strcmp(a, "explicit"); p.params_given = true; }
        else if (sscanf(line, "param %255s %ld", a, &x) == 2) p.params[a] = x;
        else if (sscanf(line, "fault %255s %ld %ld %ld", b, &x, &y, &z) == 4) { for (int s = 0; s < NSITES; s++) if (!strcmp(b, site_names[s])) p.faults.push_back({s, x, (int)y, z}); }
        else if (sscanf(line, "pick %ld %d", &x, &t) == 2) p.picks[x] = t;
        else if (sscanf(line, "switch %llu %d", &u, &t) == 2) p.sw.push_back({u, t});
    }
    fclose(f);
    return true;
}

} // namespace sim

int main(int argc, char** argv) {
    t_rt = 1;
    resolve_reals();
    __libc_single_threaded = 0;
    void* gm = malloc(sizeof(G));
    g = new (gm) G();
    map_at(STACK_BASE, STACK_TOT);
    for (int i = 0; i < NSTK; i++) mprotect((void*)(STACK_BASE + (uintptr_t)i * STACK_SZ), 4096, PROT_NONE);
    map_at(SHADOW_S, STACK_TOT / 8 * sizeof(Cell));
    data_lo = (uintptr_t)&__data_start & ~7ull; data_hi = (uintptr_t)&_end;
    map_at(SHADOW_D, (data_hi - data_lo) / 8 * sizeof(Cell) + 4096);
    std::set_terminate(on_terminate);
    // reports go to the real stdout; what the program prints goes nowhere
    g->report_fd = fcntl(1, F_DUPFD, 100);
    if (!getenv("SIM_STDOUT")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);

    u64 a = 0, b = 0, base = 0; const char* plan = nullptr; const char* status = nullptr; const char* scen = nullptr; int cpu = -1;
    bool hashes = false, samples = false; double max_s = 1e9;
    for (int i = 1; i < argc; i++) {
        std::string o = argv[i];
        auto nx = [&]() -> const char* { return ++i < argc ? argv[i] : ""; };
        if (o == "--property") g->property = nx();
        else if (o == "--scenario") scen = nx();
        else if (o == "--seeds") { a = strtoull(nx(), 0, 10); b = strtoull(nx(), 0, 10); }
        else if (o == "--base") base = strtoull(nx(), 0, 10);
        else if (o == "--plan") plan = nx();
        else if (o == "--plan-out") g->plan_out = nx();
        else if (o == "--status") status = nx();
        else if (o == "--trace") g->trace = true;
        else if (o == "--hashes") hashes = true;
        else if (o == "--samples") samples = true;
        else if (o == "--cpu") cpu = atoi(nx());
        else if (o == "--tier") g->tier = nx();
        else if (o == "--max-seconds") max_s = atof(nx());
        else { fprintf(stderr, "unknown option %s\n", o.c_str()); return 64; }
    }
    if (cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    int ns; const Scenario* sc = scenarios(ns);
    auto find = [&](const std::string& n) -> const RunSpec* { for (int i = 0; i < ns; i++) if (n == sc[i].name) return &sc[i].spec; fprintf(stderr, "no scenario %s\n", n.c_str()); _exit(64); };
    fs_init();

    if (plan) {
        Plan p;
        if (!load_plan(plan, p)) { fprintf(stderr, "cannot read plan\n"); return 64; }
        g->in = p;
        child_limits();
        do_run(find(p.scenario));
        out(fmt("OK hash=%016llx steps=%llu switches=%ld\n", (unsigned long long)g->run_hash, (unsigned long long)g->step, g->nswitch));
        return 0;
    }

    const RunSpec* spec = find(scen);
    int sfd = status ? (int)raw_syscall6(SYS_open, (long)status, O_CREAT | O_TRUNC | O_WRONLY, 0644, 0, 0, 0) : -1;
    const size_t SHM = 4 << 20;
    char* shm = (char*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::set<u64> interleavings;
    std::map<std::string, long> strat_runs, probes, faults;
    u64 tot_steps = 0, tot_switch = 0, tot_vtime = 0, nthreads = 0;
    long runs = 0;
    auto mono = [] { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9; };
    double t0 = mono();
    std::string sample_txt, hash_txt;
    for (u64 s = a; s < b; s++) {
        g->in = Plan();
        g->in.scenario = scen;
        g->in.seed = base * 1000003ull + s; g->in.schedseed = g->in.seed;
        if (sfd >= 0) { char buf[32]; int n = snprintf(buf, sizeof buf, "%020llu\n", (unsigned long long)s); raw_syscall6(SYS_pwrite64, sfd, (long)buf, n, 0, 0, 0); }
        // every run starts from the same process image: one fork per run
        pid_t pid = fork();
        if (pid < 0) { out("sim: fork failed\n"); _exit(76); }
        if (pid == 0) {
            child_limits();
            do_run(spec);
            std::string t = fmt("%016llx %d %llu %ld %llu %d ", (unsigned long long)g->run_hash, (int)g->strat, (unsigned long long)g->step, g->nswitch, (unsigned long long)g->total_vtime, g->created);
            u64 h = g->sched_hash; hash_add(h, 7);
            for (auto& p : g->rec.params) { hash_str(h, p.first.c_str()); hash_add(h, (u64)p.second); }
            for (auto& f : g->rec.faults) { hash_add(h, (u64)f.site * 131 + (u64)f.kind); hash_add(h, (u64)f.idx); }
            bool nontrivial = g->nswitch > 2 || !g->rec.faults.empty() || g->created > 0;
            t += fmt("%llu\n", nontrivial ? (unsigned long long)h : 0ull);
            for (auto& f : g->fault_counts) t += fmt("F %s %ld\n", f.first.c_str(), f.second);
            for (auto& f : g->probes) t += fmt("P %s %ld\n", f.first.c_str(), f.second);
            if (samples && runs < 3) t += "S " + sample_json() + "\n";
            if (t.size() + 1 > SHM) t.resize(SHM - 1);
            memcpy(shm, t.c_str(), t.size() + 1);
            raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 10) _exit(10);          // the child reported a violation
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { out(fmt("sim: run process for seed %llu ended abnormally: status %d\n", (unsigned long long)g->in.seed, st)); _exit(77); }
        runs++;
        char* save = nullptr;
        char* line = strtok_r(shm, "\n", &save);
        unsigned long long hsh, stp, vt, il; int str, cr; long sw;
        if (!line || sscanf(line, "%llx %d %llu %ld %llu %d %llu", &hsh, &str, &stp, &sw, &vt, &cr, &il) != 7) { out("sim: bad run record\n"); _exit(77); }
        strat_runs[strat_names[str]]++; tot_steps += stp; tot_switch += (u64)sw; tot_vtime += vt; nthreads += (u64)cr;
        if (il) interleavings.insert(il);
        if (hashes) hash_txt += fmt("H %llu %016llx\n", (unsigned long long)s, hsh);
        while ((line = strtok_r(nullptr, "\n", &save))) {
            char nm[256]; long v;
            if (sscanf(line, "F %255s %ld", nm, &v) == 2) faults[nm] += v;
            else if (sscanf(line, "P %255s %ld", nm, &v) == 2) probes[nm] += v;
            else if (line[0] == 'S') sample_txt += (sample_txt.empty() ? "" : ", ") + std::string(line + 2);
        }
        if (mono() - t0 > max_s) break;
    }
    std::string o = hash_txt;
    o += fmt("STATS {\"runs\": %ld, \"steps\": %llu, \"switches\": %llu, \"threads\": %llu, \"sim_ns\": %llu, \"interleavings\": [", runs, (unsigned long long)tot_steps, (unsigned long long)tot_switch, (unsigned long long)nthreads, (unsigned long long)tot_vtime);
    bool first = true;
    for (u64 h : interleavings) { o += fmt("%s%llu", first ? "" : ",", (unsigned long long)(h & 0x1fffffffffffffull)); first = false; }
    auto dump = [&](const char* name, std::map<std::string, long>& m) {
        o += fmt(", \"%s\": {", name); bool first = true;
        for (auto& f : m) { o += fmt("%s\"%s\": %ld", first ? "" : ", ", f.first.c_str(), f.second); first = false; }
        o += "}";
    };
    o += "]";
    dump("faults", faults); dump("probes", probes); dump("strategies", strat_runs);
    o += ", \"samples\": [" + sample_txt + "]}\n";
    out(o);
    raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    return 0;
}
