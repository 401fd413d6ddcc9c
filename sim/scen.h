#pragma once
#include "rt.h"
#include "lp.h"
#include <string>
#include <map>
struct SetSpec { int b[8] = {1, 1, 1, 1, 1, 1, 1, 1}; int max_shift = 10; double max_time = 60.0; int verbose = 0; };
enum { S_STON, S_DTON, S_PROWS, S_PCOLS, S_PRIMAL, S_FINITE, S_DUALFIX, S_RELAX };
struct Scenario {
    std::string prop; uint64_t seed = 0; uint64_t index = 0;
    std::vector<LP> lps; std::vector<SetSpec> sets; SimCfg cfg; std::vector<int64_t> args;
    std::string text() const; static bool parse(const std::string &, Scenario &);
};
// aggregated counters of a batch (summed over workers)
enum Ctr { K_RUNS, K_EXECS, K_STEPS, K_SWITCH, K_ALLOCS, K_ALLOCFAIL, K_THREADFAIL, K_THREADS, K_CLOCKREADS, K_JUMPS, K_SIMNS_MS, K_TIES, K_EXITS, K_SKIPPED,
    K_OPT, K_INFEAS, K_UNBND, K_ST_UNCHANGED, K_ST_REDUCED, K_ST_INFEAS, K_ST_UNBND, K_POSTSOLVES, K_CUTS, K_UNIQUE, K_NULLS, K_ACCMT, K_EMPTYRED, K_PROBE0, K_PROBE1, K_PROBE2, K_PROBE3, K_PROBE4, K_PROBE5, K_PROBE6, K_PROBE7, K_RESCALED, K_COUNT };
extern uint64_t g_ctr[K_COUNT];
extern const char *ctr_name[K_COUNT];
struct RunInfo { uint64_t hash = 0; uint64_t sig = 0; uint64_t sched = 0; bool nontrivial = false; };
extern RunInfo g_run;
Scenario gen_scenario(const std::string &prop, uint64_t verif_seed, uint64_t index);
void run_scenario(const Scenario &s);     // returns if nothing violated; calls violation() otherwise
std::vector<std::string> all_props();
bool known_prop(const std::string &);
// property-specific argument shrinking hints
