#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <csetjmp>
#include <cstdarg>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <array>
#include <pthread.h>
#include <link.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

// ------------------------------------------------------------------ layout
static const uintptr_t HEAP = 0x100000000000ull;
static const size_t HEAP_SZ = 64ull << 20;
static const int MAXT = 16;
static const uintptr_t STK = 0x110000000000ull;
static const size_t STK_SZ = 1ull << 20;
// thread-local variables of the program (those of the library among them): [thread pointer - size, thread pointer)
static size_t g_tls_sz = 0;
static inline bool in_tls(uintptr_t a) { uintptr_t tp = (uintptr_t)__builtin_thread_pointer(); return a < tp && tp - a <= g_tls_sz; }
static uint8_t *g_state;              // per heap byte
enum { B_NONE = 0, B_LIVE = 1, B_FREED = 2, B_RO = 3, B_RED = 4, B_UFREED = 5 };
static uintptr_t g_brk;
static uintptr_t g_hi;                // high-water mark to reset

extern "C" { extern char __start_pslp_data[] __attribute__((weak)); extern char __stop_pslp_data[] __attribute__((weak));
             extern char __start_pslp_bss[] __attribute__((weak)); extern char __stop_pslp_bss[] __attribute__((weak));
             extern char __executable_start[]; extern char _end[]; }
static std::vector<char> g_data0, g_bss0;

// ------------------------------------------------------------------ state
SimStats g_st;
std::string g_out, g_err;
bool g_record_reads = true;
std::vector<int64_t> g_reads;
static SimCfg C;
static Rng R(1);
static bool g_on = false;             // inside an execution
static int64_t g_armed_count = 0;
static bool g_exited = false; static int g_exit_code = 0;
static int64_t g_now = 0, g_jumped = 0;

struct VC { uint32_t c[MAXT]; };
struct Task {
    int tid = 0; pthread_t th{}; sem_t sem; bool used = false, done = false, blocked = false, helper = false, armed = false,
        detached = false, joined = false;
    std::function<void()> fn; VC vc{}; jmp_buf jb; int prio = 0;
    std::function<bool()> ready; void *ret = nullptr;
};
static Task T[MAXT];
static int g_nt = 0;
static Task *g_cur = nullptr;
static sem_t g_main;
static uint64_t g_next_preempt = ~0ull;
static bool g_mt = false;             // more than one task not done
static size_t g_tr = 0;               // position in C.trace
static std::vector<uint64_t> g_pct_points; static int g_pct_low = 0;
static void *g_stkbase[MAXT];

void hash_bytes(const void *p, size_t n) {
    const uint8_t *b = (const uint8_t *)p; uint64_t h = g_st.hash;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    g_st.hash = h;
}
static void ev(uint64_t a, uint64_t b) { uint64_t v[2] = {a, b}; hash_bytes(v, sizeof v); }
static void sev(uint64_t a, uint64_t b) { uint64_t v[2] = {a, b}; const uint8_t *p = (uint8_t *)v; uint64_t h = g_st.sched_hash;
    for (size_t i = 0; i < sizeof v; i++) { h ^= p[i]; h *= 1099511628211ull; } g_st.sched_hash = h; }

// ------------------------------------------------------------------ race shadow
struct Sh { uint32_t w; uint8_t wt; uint8_t rmask_lo; uint16_t rmask; };
static Sh *g_sh_heap; static uint16_t (*g_rd_heap)[MAXT];
static Sh *g_sh_stk; static uint16_t (*g_rd_stk)[MAXT];
static std::vector<Sh> g_sh_glob; static std::vector<std::array<uint16_t, MAXT>> g_rd_glob;
static bool g_sh_dirty_heap = false; static uintptr_t g_sh_hi = 0; static uintptr_t g_stk_lo[MAXT];

static void sync_maps_clear();

static inline bool in_glob(uintptr_t a, size_t &idx) {
    if (__start_pslp_data && a >= (uintptr_t)__start_pslp_data && a < (uintptr_t)__stop_pslp_data) { idx = a - (uintptr_t)__start_pslp_data; return true; }
    if (__start_pslp_bss && a >= (uintptr_t)__start_pslp_bss && a < (uintptr_t)__stop_pslp_bss) {
        idx = (a - (uintptr_t)__start_pslp_bss) + g_data0.size(); return true; }
    return false;
}
static void *xmap(uintptr_t at, size_t n) {
    void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (at && p != (void *)at)) { perror("mmap"); _exit(3); }
    return p;
}
void sim_init() {
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { size_t al = i->dlpi_phdr[k].p_align; g_tls_sz = (i->dlpi_phdr[k].p_memsz + al - 1) / al * al; } return 1; }, nullptr);
    xmap(HEAP, HEAP_SZ); xmap(STK, STK_SZ * MAXT);
    g_state = (uint8_t *)xmap(0, HEAP_SZ);
    g_sh_heap = (Sh *)xmap(0, HEAP_SZ * sizeof(Sh)); g_rd_heap = (uint16_t(*)[MAXT])xmap(0, HEAP_SZ * sizeof(uint16_t) * MAXT);
    g_sh_stk = (Sh *)xmap(0, STK_SZ * MAXT * sizeof(Sh)); g_rd_stk = (uint16_t(*)[MAXT])xmap(0, STK_SZ * MAXT * sizeof(uint16_t) * MAXT);
    if (__start_pslp_data) g_data0.assign(__start_pslp_data, __stop_pslp_data);
    if (__start_pslp_bss) g_bss0.assign(__start_pslp_bss, __stop_pslp_bss);
    g_sh_glob.resize(g_data0.size() + g_bss0.size()); g_rd_glob.resize(g_sh_glob.size());
    g_brk = g_hi = HEAP; g_sh_hi = HEAP;
    for (int i = 0; i < MAXT; i++) { g_stkbase[i] = (void *)(STK + STK_SZ * i); sem_init(&T[i].sem, 0, 0); g_stk_lo[i] = STK + STK_SZ * (i + 1); }
    sem_init(&g_main, 0, 0);
}
struct Blk { size_t size; bool lib; bool freed; uint64_t serial; };
static std::map<uintptr_t, Blk> g_blk; static size_t g_live = 0; static uint64_t g_serial = 0;

void sim_begin(const SimCfg &cfg) {
    C = cfg; R = Rng(mix(cfg.rseed, 0x51)); g_st = SimStats(); g_out.clear(); g_err.clear(); g_reads.clear();
    memset((void *)HEAP, 0xA5, std::min<size_t>(g_hi - HEAP + 65536, HEAP_SZ)); // nothing of an earlier run is left behind, not even between blocks
    memset(g_state, 0, g_hi - HEAP);
    if (g_sh_dirty_heap) {
        memset(g_sh_heap, 0, (g_sh_hi - HEAP) * sizeof(Sh)); memset(g_rd_heap, 0, (g_sh_hi - HEAP) * sizeof(uint16_t) * MAXT);
        std::fill(g_sh_glob.begin(), g_sh_glob.end(), Sh{}); for (auto &a : g_rd_glob) a.fill(0);
        for (int i = 0; i < MAXT; i++) { uintptr_t hi = STK + STK_SZ * (i + 1); size_t o = g_stk_lo[i] - STK, n = hi - g_stk_lo[i];
            if (n) { memset(g_sh_stk + o, 0, n * sizeof(Sh)); memset(g_rd_stk + o, 0, n * sizeof(uint16_t) * MAXT); } g_stk_lo[i] = hi; }
        g_sh_dirty_heap = false; g_sh_hi = HEAP;
    }
    if (!g_data0.empty()) memcpy(__start_pslp_data, g_data0.data(), g_data0.size());
    if (!g_bss0.empty()) memcpy(__start_pslp_bss, g_bss0.data(), g_bss0.size());
    g_brk = HEAP + 4096 + 16 * (uintptr_t)(C.pad & 1023); g_hi = std::max(g_brk, (uintptr_t)HEAP);
    g_blk.clear(); g_live = 0; g_serial = 0; g_armed_count = 0; g_exited = false; g_exit_code = 0;
    g_now = C.t0_ns; g_jumped = 0; g_nt = 0; g_cur = nullptr; g_mt = false; g_tr = 0; g_next_preempt = ~0ull;
    g_pct_points.clear(); g_pct_low = 0;
    if (C.strat == ST_PCT) { for (int i = 0; i < C.pct_d; i++) g_pct_points.push_back(1 + R.below((uint64_t)std::max<int64_t>(1, C.pct_len))); std::sort(g_pct_points.begin(), g_pct_points.end()); }
    sync_maps_clear();
    for (auto &t : T) { t.used = t.done = t.blocked = t.helper = t.armed = t.detached = t.joined = false; t.vc = VC{}; t.ready = nullptr; }
}

// ------------------------------------------------------------------ heap
static std::string hx(uintptr_t a) { char b[32]; snprintf(b, sizeof b, "0x%zx", (size_t)a); return b; }
static std::string where(uintptr_t a) {
    auto it = g_blk.upper_bound(a + 64);
    while (it != g_blk.begin()) { --it; if (it->first <= a + 64) {
        char b[160]; snprintf(b, sizeof b, "block #%llu of %zu bytes%s%s, offset %lld", (unsigned long long)it->second.serial, it->second.size,
            it->second.lib ? "" : " (caller)", it->second.freed ? " (released)" : "", (long long)(a - it->first)); return b; } }
    return hx(a);
}
static void *heap_get(size_t n, bool lib, int st) {
    uintptr_t a = (g_brk + 32 + 15) & ~(uintptr_t)15; size_t body = n ? n : 1;
    if (n > HEAP_SZ || a + body + 64 > HEAP + HEAP_SZ) return nullptr;
    memset(g_state + (g_brk - HEAP), B_RED, a - g_brk);
    memset(g_state + (a - HEAP), st, n);
    uintptr_t e = a + n; g_brk = e + 32; memset(g_state + (e - HEAP), B_RED, 32); g_hi = std::max(g_hi, g_brk);
    uint8_t *p = (uint8_t *)a;
    switch (C.fill) { case FILL_ZERO: memset(p, 0, n); break; case FILL_FF: memset(p, 0xFF, n); break;
        case FILL_RANDOM: { Rng r(mix(C.rseed, 0x77 + g_serial)); for (size_t i = 0; i < n; i++) p[i] = (uint8_t)r.next(); break; }
        default: { Rng r(mix(C.rseed, 0x78 + g_serial)); for (size_t i = 0; i + 4 <= n; i += 4) { uint32_t v = (uint32_t)r.below(4); memcpy(p + i, &v, 4); } } }
    g_blk[a] = Blk{n, lib, false, ++g_serial}; if (lib) g_live++;
    return p;
}
void *user_alloc(size_t n, bool ro) { return heap_get(n, false, ro ? B_RO : B_LIVE); }
void user_protect(void *p, bool ro) { auto it = g_blk.find((uintptr_t)p); if (it != g_blk.end()) memset(g_state + ((uintptr_t)p - HEAP), ro ? B_RO : B_LIVE, it->second.size); }
void lib_readonly(void *p, bool ro) { user_protect(p, ro); }
void user_release(void *p) { auto it = g_blk.find((uintptr_t)p); if (it == g_blk.end()) return; memset(g_state + ((uintptr_t)p - HEAP), B_UFREED, it->second.size);
    memset(p, 0xDB, it->second.size); it->second.freed = true; }
size_t sim_live_blocks() { return g_live; }
std::string sim_live_desc() { std::string s; int k = 0; for (auto &b : g_blk) if (b.second.lib && !b.second.freed && k++ < 6) { char t[64]; snprintf(t, sizeof t, " #%llu(%zu bytes)", (unsigned long long)b.second.serial, b.second.size); s += t; } return s; }
bool sim_is_live(const void *p, size_t n) { uintptr_t a = (uintptr_t)p; if (a < HEAP || a + n > HEAP + HEAP_SZ) return n == 0;
    for (size_t i = 0; i < n; i++) if (g_state[a - HEAP + i] != B_LIVE && g_state[a - HEAP + i] != B_RO) return false; return true; }
void sim_arm(bool on) { if (g_cur) g_cur->armed = on; }   // the calling task and the helpers it starts
int64_t sim_alloc_count() { return g_armed_count; }
int sim_live_threads() { int k = 0; for (int i = 0; i < g_nt; i++) if (T[i].used && T[i].helper && !(T[i].done && (T[i].joined || T[i].detached))) k++; return k; }
int sim_tid() { return g_cur ? g_cur->tid : -1; }
bool sim_exited() { return g_exited; }
int sim_exit_code() { return g_exit_code; }

static void point();
static bool alloc_fault(size_t n) {
    if (!g_on) return false;
    if (g_cur && g_cur->armed) { int64_t k = g_armed_count++; if (C.fail_at >= 0 && (k == C.fail_at || (C.sticky && k > C.fail_at))) { g_st.alloc_fail++; ev(0xFA, (uint64_t)k); return true; }
        if (C.fail_big >= 0 && (int64_t)n >= C.fail_big) { g_st.alloc_fail++; ev(0xFB, (uint64_t)k); return true; } }
    return false;
}
extern "C" void *sim_malloc(size_t n) { if (g_on) point(); g_st.allocs++; ev(1, n); if (alloc_fault(n)) { errno = ENOMEM; return nullptr; } void *p = heap_get(n, true, B_LIVE); if (!p) errno = ENOMEM; return p; }
extern "C" void *sim_calloc(size_t a, size_t b) { if (g_on) point(); g_st.allocs++; ev(2, a * b);
    if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
    if (alloc_fault(a * b)) { errno = ENOMEM; return nullptr; } void *p = heap_get(a * b, true, B_LIVE); if (p) memset(p, 0, a * b); else errno = ENOMEM; return p; }
static void range_access(uintptr_t a, size_t n, bool w);
static void do_free(void *p) {
    auto it = g_blk.find((uintptr_t)p);
    if (it == g_blk.end()) violation("bad-free", "release of a pointer that is not the start of a block: " + where((uintptr_t)p));
    if (!it->second.lib) violation("bad-free", "release of caller memory: " + where((uintptr_t)p));
    if (it->second.freed) violation("double-free", "block released twice: " + where((uintptr_t)p));
    if (it->second.size && g_state[(uintptr_t)p - HEAP] == B_RO) violation("bad-free", "release of constant memory: " + where((uintptr_t)p));
    if (g_mt) range_access((uintptr_t)p, it->second.size, true);
    it->second.freed = true; g_live--; memset(g_state + ((uintptr_t)p - HEAP), B_FREED, it->second.size); memset(p, 0xDD, it->second.size);
}
extern "C" void sim_free(void *p) { if (!p) return; if (g_on) point(); g_st.frees++; ev(3, (uintptr_t)p - HEAP); do_free(p); }
extern "C" void *sim_realloc(void *p, size_t n) {
    if (g_on) point(); g_st.reallocs++; ev(4, n);
    if (alloc_fault(n)) { errno = ENOMEM; return nullptr; }
    if (!p) return heap_get(n, true, B_LIVE);
    auto it = g_blk.find((uintptr_t)p);
    if (it == g_blk.end() || !it->second.lib) violation("bad-free", "realloc of a foreign pointer: " + where((uintptr_t)p));
    if (it->second.freed) violation("use-after-free", "realloc of a released block: " + where((uintptr_t)p));
    size_t old = it->second.size; void *q = heap_get(n, true, B_LIVE); if (!q) { errno = ENOMEM; return nullptr; }
    memcpy(q, p, std::min(old, n)); do_free(p); return q;
}
extern "C" void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
extern "C" void *sim_aligned_alloc(size_t al, size_t n) { if (g_on) point(); g_st.allocs++; ev(5, n); if (alloc_fault(n)) { errno = ENOMEM; return nullptr; }
    if (al > 16) { uintptr_t w = (g_brk + 32 + al - 1) & ~(uintptr_t)(al - 1); memset(g_state + (g_brk - HEAP), B_RED, w - 32 - g_brk); g_brk = w - 32; } return heap_get(n, true, B_LIVE); }
extern "C" int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = sim_aligned_alloc(al, n); if (!p) return ENOMEM; *o = p; return 0; }

// ------------------------------------------------------------------ scheduler
static bool runnable(Task &t) { if (!t.used || t.done) return false; if (t.blocked) { if (t.ready && t.ready()) return true; return false; } return true; }
static void switch_to(Task *n) {
    Task *me = g_cur; if (n == me) return;
    g_st.switches++; sev(g_st.steps, (uint64_t)n->tid); ev(0x5C, (g_st.steps << 4) | (uint64_t)n->tid);
    if (C.strat != ST_TRACE || true) g_st.trace.push_back({g_st.steps, n->tid});
    g_cur = n; sem_post(&n->sem);
    if (me) { while (sem_wait(&me->sem)) {} if (g_exited && g_cur == me) longjmp(me->jb, 1); }
}
static void set_preempt() {
    if (!g_mt) { g_next_preempt = ~0ull; return; }
    switch (C.strat) {
        case ST_WALK: { // geometric gap
            uint64_t g = 1; while (g < 100000 && R.below((uint64_t)std::max(1, C.gap)) != 0) { g++; if (C.gap > 200) g += (uint64_t)C.gap / 100; } g_next_preempt = g_st.steps + g; break; }
        case ST_PCT: g_next_preempt = ~0ull; for (uint64_t s : g_pct_points) if (s > g_st.steps) { g_next_preempt = s; break; } break;
        case ST_TRACE: while (g_tr < C.trace.size() && C.trace[g_tr].step < g_st.steps) g_tr++;
            g_next_preempt = g_tr < C.trace.size() ? std::max(C.trace[g_tr].step, g_st.steps + 0) : ~0ull;
            if (g_next_preempt == g_st.steps) { /* consumed below */ } break;
        default: g_next_preempt = ~0ull;
    }
}
// choose who runs now; `can` says whether the current task may continue
static Task *choose(bool can, bool preempting, Task *born) {
    std::vector<Task *> v; for (int i = 0; i < g_nt; i++) if (runnable(T[i]) && (can || &T[i] != g_cur)) v.push_back(&T[i]);
    if (v.empty()) return nullptr;
    Task *def = can ? g_cur : v[0];
    switch (C.strat) {
        case ST_SEQ: return def;
        case ST_CHILD: return born ? born : def;
        case ST_WALK: if (preempting || !can || born) return v[R.below(v.size())]; return def;
        case ST_PCT: { if (preempting) g_cur->prio = --g_pct_low; Task *b = v[0]; for (Task *t : v) if (t->prio > b->prio) b = t; return b; }
        case ST_TRACE: { while (g_tr < C.trace.size() && C.trace[g_tr].step < g_st.steps) g_tr++;
            if (g_tr < C.trace.size() && C.trace[g_tr].step == g_st.steps) { int w = C.trace[g_tr].tid; g_tr++; for (Task *t : v) if (t->tid == w) return t; }
            return def; }
    }
    return def;
}
static void decide(bool can, bool preempting, Task *born) {
    Task *n = choose(can, preempting, born);
    if (!n) {
        bool alive = false; for (int i = 0; i < g_nt; i++) if (T[i].used && !T[i].done) alive = true;
        if (alive) violation("deadlock", "every remaining thread is blocked");
        g_cur = nullptr; sem_post(&g_main); return;
    }
    set_preempt();
    if (n != g_cur) { n->blocked = false; switch_to(n); set_preempt(); } else g_cur->blocked = false;
}
static void steps_over() { violation("no-progress", "step budget exhausted: the call does not terminate"); }
static void point() { // explicit scheduling point (synchronisation, allocation, clock)
    g_st.steps++; if (g_st.steps > C.max_steps) steps_over();
    if (g_exited && g_cur) longjmp(g_cur->jb, 1);
    if (g_mt && g_cur && g_st.steps >= g_next_preempt) decide(true, true, nullptr);
}
static inline void step_fast() {
    if (++g_st.steps > C.max_steps) steps_over();
    if (g_st.steps >= g_next_preempt && g_mt && g_cur) decide(true, true, nullptr);
}
static void upd_mt() { int a = 0; for (int i = 0; i < g_nt; i++) if (T[i].used && !T[i].done) a++; g_mt = a > 1; if (!g_mt) g_next_preempt = ~0ull; }
static void vc_join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) a.c[i] = std::max(a.c[i], b.c[i]); }

static __attribute__((noinline)) void scrub_stack() {
    volatile char buf[160 * 1024]; Rng r(mix(C.rseed, 0x99)); uint64_t v = 0;
    if (C.fill == FILL_ZERO) memset((void *)buf, 0, sizeof buf); else if (C.fill == FILL_FF) memset((void *)buf, 0xFF, sizeof buf);
    else for (size_t i = 0; i + 8 <= sizeof buf; i += 8) { v = C.fill == FILL_RANDOM ? r.next() : (r.next() & 0x0000000300000003ull); memcpy((void *)(buf + i), &v, 8); }
}
static __attribute__((noinline)) void task_body(Task *t) { t->fn(); }
static void *tramp(void *a) {
    Task *t = (Task *)a; while (sem_wait(&t->sem)) {}
    if (setjmp(t->jb) == 0) { if (!g_exited) { scrub_stack(); task_body(t); } }
    t->done = true; upd_mt(); g_st.steps++;
    // hand over
    Task *me = t; (void)me;
    Task *n = choose(false, false, nullptr);
    if (!n) { bool alive = false; for (int i = 0; i < g_nt; i++) if (T[i].used && !T[i].done) alive = true;
        if (alive && g_exited) { for (int i = 0; i < g_nt; i++) if (T[i].used && !T[i].done) { T[i].blocked = false; T[i].ready = nullptr; } n = choose(false, false, nullptr); }
        else if (alive) violation("deadlock", "every remaining thread is blocked"); }
    if (!n) { g_cur = nullptr; sem_post(&g_main); return nullptr; }
    n->blocked = false; g_st.switches++; sev(g_st.steps, (uint64_t)n->tid); ev(0x5D, (uint64_t)n->tid); g_st.trace.push_back({g_st.steps, n->tid});
    g_cur = n; set_preempt(); sem_post(&n->sem); return nullptr;
}
static Task *new_task(std::function<void()> fn, bool helper) {
    if (g_nt >= MAXT) violation("harness", "too many simulated threads");
    Task *t = &T[g_nt]; t->tid = g_nt++; t->used = true; t->done = t->blocked = false; t->helper = helper; t->armed = helper && g_cur && g_cur->armed; t->fn = std::move(fn);
    t->prio = 1 + (int)R.below(1000); t->vc = VC{};
    if (g_cur) { t->vc = g_cur->vc; g_cur->vc.c[g_cur->tid]++; } t->vc.c[t->tid] = 1;
    while (sem_trywait(&t->sem) == 0) {}
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, g_stkbase[t->tid], STK_SZ);
    if (pthread_create(&t->th, &at, tramp, t)) { perror("pthread_create"); _exit(3); }
    pthread_attr_destroy(&at); return t;
}
void sim_run(const std::vector<std::function<void()>> &tasks) {
    int base = g_nt; g_on = true; g_cur = nullptr;
    for (auto &f : tasks) new_task(f, false);
    upd_mt(); Task *first = &T[base];
    if (tasks.size() > 1) { if (C.strat == ST_WALK) first = &T[base + (int)R.below(tasks.size())]; else if (C.strat == ST_PCT) { for (int i = base; i < g_nt; i++) if (T[i].prio > first->prio) first = &T[i]; }
        else if (C.strat == ST_TRACE && !C.trace.empty() && C.trace[0].step == 0) { for (int i = base; i < g_nt; i++) if (T[i].tid == C.trace[0].tid) first = &T[i]; g_tr = 1; }
        g_st.trace.push_back({0, first->tid}); sev(0, (uint64_t)first->tid); }
    g_cur = first; set_preempt(); sem_post(&first->sem);
    while (sem_wait(&g_main)) {}
    g_on = false; for (int i = 0; i < g_nt; i++) if (T[i].used && T[i].th) { pthread_join(T[i].th, nullptr); T[i].th = 0; }
    g_st.sim_ns = g_now - C.t0_ns;
}

// ------------------------------------------------------------------ threads seam
static const uint64_t HMAGIC = 0x51A0000000000000ull;
extern "C" int sim_pthread_create(pthread_t *out, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    point(); uint64_t k = g_st.threads + g_st.thread_fail;
    if (k < 31 && (C.thread_fail >> k & 1)) { g_st.thread_fail++; ev(0xF7, k); return EAGAIN; }
    g_st.threads++; ev(0x7C, k);
    Task *t = new_task(nullptr, true); t->fn = [t, fn, arg] { t->ret = fn(arg); };
    *(uint64_t *)out = HMAGIC | (uint64_t)t->tid; upd_mt(); decide(true, false, t); return 0;
}
static Task *handle(pthread_t h) { uint64_t v = (uint64_t)h; if ((v & ~15ull) != HMAGIC || (int)(v & 15) >= g_nt) return nullptr; return &T[v & 15]; }
extern "C" int sim_pthread_join(pthread_t h, void **ret) {
    point(); Task *t = handle(h); ev(0x70, t ? (uint64_t)t->tid : 99);
    if (!t) violation("bad-join", "wait for a thread that was never started");
    if (t->joined || t->detached) violation("bad-join", "thread joined twice");
    if (!t->done) { g_cur->blocked = true; g_cur->ready = [t] { return t->done; }; decide(false, false, nullptr); g_cur->blocked = false; g_cur->ready = nullptr; }
    t->joined = true; vc_join(g_cur->vc, t->vc); if (ret) *ret = t->ret; return 0;
}
extern "C" int sim_pthread_detach(pthread_t h) { point(); Task *t = handle(h); if (!t) violation("bad-join", "detach of a thread that was never started"); t->detached = true; return 0; }
extern "C" pthread_t sim_pthread_self() { return (pthread_t)(HMAGIC | (uint64_t)g_cur->tid); }
// sync objects: keyed by address
struct SyncObj { VC vc{}; int owner = -1; int count = 0; uint64_t sig = 0; bool once = false; };
static std::unordered_map<uintptr_t, SyncObj> g_sync;
static void sync_maps_clear() { g_sync.clear(); }
static void acq(SyncObj &s) { if (g_cur) vc_join(g_cur->vc, s.vc); }
static void rel(SyncObj &s) { if (g_cur) { vc_join(s.vc, g_cur->vc); g_cur->vc.c[g_cur->tid]++; } }
extern "C" int sim_mutex_init(void *m, const void *) { g_sync[(uintptr_t)m] = SyncObj(); return 0; }
extern "C" int sim_mutex_destroy(void *m) { g_sync.erase((uintptr_t)m); return 0; }
extern "C" int sim_mutex_lock(void *m) { if (!g_on) return 0; point(); SyncObj *s = &g_sync[(uintptr_t)m];
    while (s->owner >= 0) { if (s->owner == g_cur->tid) violation("deadlock", "mutex locked twice by its owner"); g_cur->blocked = true; uintptr_t k = (uintptr_t)m; g_cur->ready = [k] { return g_sync[k].owner < 0; }; decide(false, false, nullptr); g_cur->ready = nullptr; s = &g_sync[(uintptr_t)m]; }
    s->owner = g_cur->tid; acq(*s); return 0; }
extern "C" int sim_mutex_trylock(void *m) { if (!g_on) return 0; point(); SyncObj &s = g_sync[(uintptr_t)m]; if (s.owner >= 0) return EBUSY; s.owner = g_cur->tid; acq(s); return 0; }
extern "C" int sim_mutex_unlock(void *m) { if (!g_on) return 0; SyncObj &s = g_sync[(uintptr_t)m]; s.owner = -1; rel(s); point(); return 0; }
extern "C" int sim_once(void *o, void (*f)()) { point(); SyncObj &s = g_sync[(uintptr_t)o]; if (!s.once) { f(); SyncObj &q = g_sync[(uintptr_t)o]; q.once = true; rel(q); } acq(g_sync[(uintptr_t)o]); return 0; }
extern "C" int sim_cond_init(void *c, const void *) { g_sync[(uintptr_t)c] = SyncObj(); return 0; }
extern "C" int sim_cond_destroy(void *) { return 0; }
extern "C" int sim_cond_wait(void *c, void *m) { point(); uintptr_t k = (uintptr_t)c; uint64_t s0 = g_sync[k].sig; sim_mutex_unlock(m);
    if (g_sync[k].sig == s0) { g_cur->blocked = true; g_cur->ready = [k, s0] { return g_sync[k].sig != s0; }; decide(false, false, nullptr); g_cur->ready = nullptr; } sim_mutex_lock(m); return 0; }
extern "C" int sim_cond_broadcast(void *c) { point(); g_sync[(uintptr_t)c].sig++; return 0; }
extern "C" int sim_cond_signal(void *c) { point(); g_sync[(uintptr_t)c].sig++; return 0; }

// ------------------------------------------------------------------ clock seam
extern "C" int sim_clock_gettime(clockid_t id, struct timespec *ts) {
    point(); int64_t k = (int64_t)g_st.clock_reads++; (void)id;
    for (auto &j : C.jumps) if (j.read == k) { g_jumped += j.ns; g_st.jumps_fired++; }
    g_now = C.t0_ns + g_jumped + (k + 1) * C.tick_ns + (int64_t)(g_st.steps / 1000) * C.ns_per_kstep; g_reads.push_back(g_now); ev(6, (uint64_t)k);
    range_access((uintptr_t)ts, sizeof *ts, true);
    ts->tv_sec = g_now / 1000000000LL; ts->tv_nsec = g_now % 1000000000LL; return 0;
}
extern "C" time_t sim_time(time_t *o) { struct timespec t; sim_clock_gettime(0, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
extern "C" int sim_gettimeofday(struct timeval *tv, void *) { struct timespec t; sim_clock_gettime(0, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" clock_t sim_clock() { struct timespec t; sim_clock_gettime(0, &t); return (clock_t)(t.tv_sec * 1000000 + t.tv_nsec / 1000); }

// ------------------------------------------------------------------ stdio / exit seam
static int emit(FILE *f, const char *s, size_t n) { g_st.bytes_out += n; hash_bytes(s, n); std::string &o = (f == stderr) ? g_err : g_out; if (o.size() < 65536) o.append(s, n); return (int)n; }
static int vemit(FILE *f, const char *fmt, va_list ap) { char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); if (n > 0) emit(f, b, std::min((size_t)n, sizeof b - 1)); return n; }
extern "C" int sim_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int n = vemit(stdout, fmt, a); va_end(a); return n; }
extern "C" int sim_fprintf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = vemit(f, fmt, a); va_end(a); return n; }
extern "C" int sim_vprintf(const char *fmt, va_list a) { return vemit(stdout, fmt, a); }
extern "C" int sim_vfprintf(FILE *f, const char *fmt, va_list a) { return vemit(f, fmt, a); }
extern "C" int sim_puts(const char *s) { emit(stdout, s, strlen(s)); emit(stdout, "\n", 1); return 1; }
extern "C" int sim_fputs(const char *s, FILE *f) { emit(f, s, strlen(s)); return 1; }
extern "C" int sim_putchar(int c) { char b = (char)c; emit(stdout, &b, 1); return c; }
extern "C" int sim_putc(int c, FILE *f) { char b = (char)c; emit(f, &b, 1); return c; }
extern "C" int sim_fputc(int c, FILE *f) { char b = (char)c; emit(f, &b, 1); return c; }
extern "C" size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { emit(f, (const char *)p, a * b); return b; }
extern "C" int sim_fflush(FILE *) { return 0; }
extern "C" int sim_printf_chk(int, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = vemit(stdout, fmt, a); va_end(a); return n; }
extern "C" int sim_fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = vemit(f, fmt, a); va_end(a); return n; }
extern "C" void sim_exit(int code) {
    g_exited = true; g_exit_code = code; g_st.exits++; ev(0xE1, (uint64_t)code);
    for (int i = 0; i < g_nt; i++) if (T[i].used && !T[i].done) { T[i].blocked = false; T[i].ready = nullptr; }
    longjmp(g_cur->jb, 1);
}
extern "C" void sim_abort() { violation("abort", "the library aborted the process"); }
extern "C" void sim_assert_fail(const char *e, const char *f, unsigned l, const char *) { violation("abort", std::string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l)); }

// ------------------------------------------------------------------ sort seam
extern "C" void sim_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    if (n < 2) return; g_st.sorts++; ev(7, n); range_access((uintptr_t)base, n * sz, true);
    // elements are presented to the comparator from a scratch copy inside the simulated heap
    char *scr = (char *)heap_get(n * sz, false, B_LIVE); if (!scr) violation("harness", "heap exhausted in sort");
    memcpy(scr, base, n * sz);
    std::vector<size_t> id(n), tmp(n); for (size_t i = 0; i < n; i++) id[i] = i;
    if (C.tie == 1) std::reverse(id.begin(), id.end());
    else if (C.tie >= 2) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n * sz; i++) { h ^= (uint8_t)scr[i]; h *= 1099511628211ull; } Rng r(mix((uint64_t)C.tie, h)); // a function of the sorted data only, as with any real qsort
        for (size_t i = n; i > 1; i--) std::swap(id[i - 1], id[r.below(i)]); }
    for (size_t w = 1; w < n; w *= 2) { // merge sort, stable on the presented order
        for (size_t lo = 0; lo < n; lo += 2 * w) {
            size_t mid = std::min(lo + w, n), hi = std::min(lo + 2 * w, n), i = lo, j = mid, k = lo;
            while (i < mid && j < hi) {
                point(); int c = cmp(scr + id[i] * sz, scr + id[j] * sz);
                if (c == 0) g_st.tie_groups++;
                if (c <= 0) tmp[k++] = id[i++]; else tmp[k++] = id[j++];
            }
            while (i < mid) tmp[k++] = id[i++];
            while (j < hi) tmp[k++] = id[j++];
        }
        id.swap(tmp);
    }
    range_access((uintptr_t)base, n * sz, true);
    for (size_t i = 0; i < n; i++) memcpy((char *)base + i * sz, scr + id[i] * sz, sz);
    user_release(scr);
}
extern "C" int sim_rand() { return (int)(R.next() & 0x7fffffff); }
extern "C" void sim_srand(unsigned) {}
extern "C" char *sim_getenv(const char *) { return nullptr; }

// ------------------------------------------------------------------ memory events
static void race_check(uintptr_t a, size_t n, bool w) {
    Task *me = g_cur; g_st.accesses_mt++;
    Sh *sh; uint16_t(*rd)[MAXT]; size_t gi;
    if (a >= HEAP && a + n <= HEAP + HEAP_SZ) { sh = g_sh_heap + (a - HEAP); rd = g_rd_heap + (a - HEAP); g_sh_hi = std::max(g_sh_hi, a + n); }
    else if (a >= STK && a + n <= STK + STK_SZ * MAXT) { sh = g_sh_stk + (a - STK); rd = g_rd_stk + (a - STK); int t = (int)((a - STK) / STK_SZ); g_stk_lo[t] = std::min(g_stk_lo[t], a); }
    else if (in_glob(a, gi) && gi + n <= g_sh_glob.size()) { sh = &g_sh_glob[gi]; rd = (uint16_t(*)[MAXT])g_rd_glob[gi].data(); }
    else return;
    g_sh_dirty_heap = true;
    for (size_t i = 0; i < n; i++) {
        Sh &s = sh[i];
        if (s.w && s.wt != me->tid && s.w > me->vc.c[s.wt])
            violation("data-race", std::string(w ? "write" : "read") + " by thread " + std::to_string(me->tid) + " unordered with write by thread " + std::to_string(s.wt) + " to " + (a >= HEAP && a < HEAP + HEAP_SZ ? where(a + i) : (a >= STK && a < STK + STK_SZ * MAXT ? std::string("a stack variable") : std::string("a static variable"))));
        if (w) {
            if (s.rmask & ~(1u << me->tid)) for (int t = 0; t < MAXT; t++) if (t != me->tid && (s.rmask >> t & 1) && rd[i][t] > me->vc.c[t])
                violation("data-race", "write by thread " + std::to_string(me->tid) + " unordered with read by thread " + std::to_string(t) + " of " + (a >= HEAP && a < HEAP + HEAP_SZ ? where(a + i) : (a >= STK && a < STK + STK_SZ * MAXT ? std::string("a stack variable") : std::string("a static variable"))));
            s.w = me->vc.c[me->tid]; s.wt = (uint8_t)me->tid; s.rmask = 0;
        } else { s.rmask |= (uint16_t)(1u << me->tid); rd[i][me->tid] = (uint16_t)me->vc.c[me->tid]; }
    }
}
static __attribute__((noinline)) void bad_access(uintptr_t a, size_t n, bool w) {
    if (!C.mem_fatal && a >= 65536) return;
    std::string what = std::string(w ? "write" : "read") + " of " + std::to_string(n) + " bytes: ";
    if (a < HEAP || a >= HEAP + HEAP_SZ) {
        if (a < 65536) violation("null-access", what + "null pointer + " + hx(a));
        violation("wild-access", what + "outside every known region");
    }
    size_t i = 0; while (i < n) { int s = g_state[a - HEAP + i]; if (s != B_LIVE && !(s == B_RO && !w)) break; i++; }
    int s = g_state[a - HEAP + i];
    if (s == B_FREED) violation("use-after-free", what + where(a));
    if (s == B_UFREED) violation("caller-memory-after-release", what + where(a));
    if (s == B_RO) violation("write-to-constant", what + where(a));
    violation("out-of-bounds", what + where(a));
}
static inline void acc(uintptr_t a, size_t n, bool w) {
    if (!g_on) return;
    step_fast();
    uintptr_t o = a - HEAP;
    if (o < HEAP_SZ) { const uint8_t *s = g_state + o;
        for (size_t i = 0; i < n; i++) if (s[i] != B_LIVE && (w || s[i] != B_RO)) bad_access(a, n, w);
    } else if (a - STK >= STK_SZ * MAXT && !(a >= (uintptr_t)__executable_start && a < (uintptr_t)_end) && !in_tls(a)) bad_access(a, n, w);
    if (g_mt && g_cur && C.mem_fatal) race_check(a, n, w);
}
void user_scribble(void *p, int byte) { auto it = g_blk.find((uintptr_t)p); if (it == g_blk.end()) return; user_protect(p, false); if (g_mt && g_cur) race_check((uintptr_t)p, it->second.size, true); memset(p, byte, it->second.size); user_protect(p, true); }
static void range_access(uintptr_t a, size_t n, bool w) { if (n == 0 || !g_on) return; acc(a, n, w); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define A(N) void __tsan_read##N(void *p) { acc((uintptr_t)p, N, false); } void __tsan_write##N(void *p) { acc((uintptr_t)p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { acc((uintptr_t)p, N, false); } void __tsan_unaligned_write##N(void *p) { acc((uintptr_t)p, N, true); } \
  void __tsan_read_write##N(void *p) { acc((uintptr_t)p, N, true); } void __tsan_unaligned_read_write##N(void *p) { acc((uintptr_t)p, N, true); } \
  void __tsan_volatile_read##N(void *p) { acc((uintptr_t)p, N, false); } void __tsan_volatile_write##N(void *p) { acc((uintptr_t)p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void *p) { acc((uintptr_t)p, N, false); } void __tsan_unaligned_volatile_write##N(void *p) { acc((uintptr_t)p, N, true); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n) { range_access((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, size_t n) { range_access((uintptr_t)p, n, true); }
void *sim_memcpy(void *d, const void *s, size_t n) { if (n && g_on) { uintptr_t a = (uintptr_t)d, b = (uintptr_t)s; if (a != b && a < b + n && b < a + n) violation("overlapping-copy", "memcpy on overlapping ranges"); range_access(b, n, false); range_access(a, n, true); } return n ? memmove(d, s, n) : d; }
void *sim_memmove(void *d, const void *s, size_t n) { if (n) { range_access((uintptr_t)s, n, false); range_access((uintptr_t)d, n, true); memmove(d, s, n); } return d; }
void *sim_memset(void *d, int c, size_t n) { if (n) { range_access((uintptr_t)d, n, true); memset(d, c, n); } return d; }
int sim_memcmp(const void *a, const void *b, size_t n) { if (n) { range_access((uintptr_t)a, n, false); range_access((uintptr_t)b, n, false); } return memcmp(a, b, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return sim_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return sim_memset(d, c, n); }
// atomics: sequentially consistent, scheduling points, synchronisation objects
#define AT(B, TY) \
 TY __tsan_atomic##B##_load(const volatile TY *p, int) { point(); acq(g_sync[(uintptr_t)p]); return *p; } \
 void __tsan_atomic##B##_store(volatile TY *p, TY v, int) { point(); *p = v; rel(g_sync[(uintptr_t)p]); } \
 TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); TY o = *p; *p = v; rel(s); return o; } \
 TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); TY o = *p; *p = (TY)(o + v); rel(s); return o; } \
 TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); TY o = *p; *p = (TY)(o - v); rel(s); return o; } \
 TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); TY o = *p; *p = (TY)(o | v); rel(s); return o; } \
 TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); TY o = *p; *p = (TY)(o & v); rel(s); return o; } \
 TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); TY o = *p; *p = (TY)(o ^ v); rel(s); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); if (*p == *e) { *p = v; rel(s); return 1; } *e = *p; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); if (*p == *e) { *p = v; rel(s); return 1; } *e = *p; return 0; } \
 TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY v, int, int) { point(); SyncObj &s = g_sync[(uintptr_t)p]; acq(s); TY o = *p; if (o == e) { *p = v; rel(s); } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// coverage
static uint8_t *g_cb = nullptr, *g_ce = nullptr;
void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e) { if (!g_cb || b < g_cb) g_cb = b; if (e > g_ce) g_ce = e; }
void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}
}
size_t cov_total() { return (size_t)(g_ce - g_cb); }
uint8_t *cov_begin() { return g_cb; }
size_t cov_edges() { size_t k = 0; for (uint8_t *p = g_cb; p < g_ce; p++) k += *p != 0; return k; }
