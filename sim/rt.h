// Deterministic simulator runtime: heap, threads, clock, sort, stdio, memory-access events.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

struct Rng {                      // splitmix64: the only source of randomness
    uint64_t s;
    explicit Rng(uint64_t x = 0) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); r.next(); return r.next(); }

enum Fill { FILL_ZERO = 0, FILL_FF, FILL_RANDOM, FILL_SMALLINT, FILL_NMODES };
enum Strat { ST_SEQ = 0, ST_CHILD, ST_WALK, ST_PCT, ST_TRACE };

struct SwitchEv { uint64_t step; int tid; };
struct JumpEv { int64_t read; int64_t ns; };      // at clock read number `read`, time jumps by ns

struct SimCfg {
    uint64_t rseed = 1;        // seed for everything the runtime itself draws
    int fill = FILL_ZERO;
    int pad = 0;               // shifts heap addresses
    int tie = 0;               // qsort tie order: 0 keep, 1 reverse, >= 2 scrambled (per value)
    // allocation faults: counted while armed
    int64_t fail_at = -1; int sticky = 0;
    int64_t fail_big = -1;     // every request of at least this size fails (-1: none)
    int thread_fail = 0;       // bit i: i-th thread start refused
    // clock
    int64_t t0_ns = 1000000000000LL; int64_t tick_ns = 100; int64_t ns_per_kstep = 0;
    std::vector<JumpEv> jumps;
    // schedule
    int strat = ST_SEQ; int gap = 64; int pct_d = 2; int64_t pct_len = 20000;
    std::vector<SwitchEv> trace;
    uint64_t max_steps = 400000000ull;
    int mem_fatal = 1;         // 1: memory errors and data races are violations; 0: only crashes are
};

struct SimStats {              // what happened in the current execution
    uint64_t steps = 0, accesses_mt = 0, switches = 0, allocs = 0, frees = 0, reallocs = 0,
             alloc_fail = 0, thread_fail = 0, threads = 0, clock_reads = 0, jumps_fired = 0,
             tie_groups = 0, bytes_out = 0, exits = 0, sorts = 0;
    int64_t sim_ns = 0;
    uint64_t hash = 1469598103934665603ull;
    std::vector<SwitchEv> trace;      // schedule actually taken
    uint64_t sched_hash = 1469598103934665603ull;
};

extern SimStats g_st;
extern bool g_record_reads;
extern std::vector<int64_t> g_reads;          // simulated time of each clock read
extern std::string g_out;                     // captured output (stdout)
extern std::string g_err;                     // captured output (stderr)

// one execution -----------------------------------------------------------------
void sim_init();                              // once per process
void sim_begin(const SimCfg &cfg);            // resets heap, statics, clock, schedule
// Runs the given caller tasks to completion under the scheduler.
void sim_run(const std::vector<std::function<void()>> &tasks);
bool sim_exited();                            // some task called exit()
int sim_exit_code();

// caller memory inside the simulated heap, guarded by red zones
void *user_alloc(size_t n, bool readonly_for_lib);
void user_protect(void *p, bool readonly_for_lib);
void user_scribble(void *p, int byte);        // caller overwrites its array (ordered like any write)
void user_release(void *p);                   // any later access by the library is a violation
void lib_readonly(void *p, bool ro);          // library block the caller declares constant

// allocation-fault window
void sim_arm(bool on);
int64_t sim_alloc_count();                    // requests seen while armed
struct Block { void *p; size_t size; uint64_t serial; };
size_t sim_live_blocks();                     // live library blocks
std::string sim_live_desc();
bool sim_is_live(const void *p, size_t n);    // whole range inside live memory
int sim_live_threads();                       // live helper threads (not caller tasks)
int sim_tid();

[[noreturn]] void violation(const std::string &kind, const std::string &msg);
void hash_bytes(const void *p, size_t n);     // adds to event hash
// per-edge coverage of the library
size_t cov_edges(); size_t cov_total();
uint8_t *cov_begin();
