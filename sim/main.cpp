#include "scen.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <fstream>
#include <sstream>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>

struct Shared {            // one per worker, in shared memory
    volatile uint64_t index; volatile uint64_t done; volatile uint64_t heartbeat; volatile uint64_t bad;
    char kind[64]; char msg[600]; volatile uint64_t hash; volatile int has_violation; volatile int trace_n; SwitchEv trace[4096];
    uint64_t ctr[K_COUNT]; uint64_t nontrivial; uint64_t cov_n; uint8_t cov[65536];
    uint64_t nsig, nsched; uint64_t sig[1 << 18], sched[1 << 18];  // open-addressed sets (lossy when full)
    uint64_t sigfull;
};
static Shared *g_sh = nullptr;
static bool g_quiet_child = false;
void violation(const std::string &kind, const std::string &msg) {
    if (g_sh) { snprintf(g_sh->kind, sizeof g_sh->kind, "%s", kind.c_str()); snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
        g_sh->hash = g_st.hash; g_sh->trace_n = (int)std::min<size_t>(g_st.trace.size(), 4096); for (int i = 0; i < g_sh->trace_n; i++) g_sh->trace[i] = g_st.trace[i]; g_sh->has_violation = 1; }
    if (!g_quiet_child) { fprintf(stderr, "violation: %s: %s\n", kind.c_str(), msg.c_str()); }
    _exit(42);
}
static Shared *new_shared() { void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (Shared *)p; }
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void set_add(uint64_t *tab, uint64_t &n, uint64_t v) { if (!v) v = 1; const size_t M = (1 << 18) - 1; if (n > (M * 3) / 4) return; size_t h = v & M; while (tab[h] && tab[h] != v) h = (h + 1) & M; if (!tab[h]) { tab[h] = v; n++; } }

struct Verdict { bool violated = false, error = false; std::string kind, msg; uint64_t hash = 0; std::vector<SwitchEv> trace; };
// runs one scenario in a fresh forked process
static Verdict run_forked(const Scenario &s, double limit) {
    Shared *sh = g_sh ? nullptr : nullptr; static Shared *box = nullptr; if (!box) box = new_shared(); sh = box;
    sh->has_violation = 0; sh->kind[0] = sh->msg[0] = 0; sh->hash = 0; sh->trace_n = 0; sh->done = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { g_sh = sh; g_quiet_child = true; int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); run_scenario(s); sh->hash = g_run.hash; sh->done = 1; _exit(0); }
    double t0 = now_s(); int st; bool killed = false;
    for (;;) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break; if (now_s() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; } usleep(500); }
    Verdict v; v.hash = sh->hash;
    if (killed) { v.violated = true; v.kind = "hang"; v.msg = "the library did not return within the watchdog time"; return v; }
    if (WIFSIGNALED(st)) { v.violated = true; v.kind = "crash"; v.msg = std::string("the library crashed with signal ") + std::to_string(WTERMSIG(st)); return v; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42 && sh->has_violation) { v.violated = true; v.kind = sh->kind; v.msg = sh->msg; for (int i = 0; i < sh->trace_n; i++) v.trace.push_back(sh->trace[i]); return v; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) return v;
    v.error = true; v.msg = "child ended unexpectedly"; return v;
}
// ------------------------------------------------------------------ minimisation
static int g_cand = 0;
static bool still(const Scenario &s, const std::string &kind) { g_cand++; Verdict v = run_forked(s, 20); return v.violated && v.kind == kind; }
static LP drop_row(const LP &p, int i) { LP q = p; q.A.erase(q.A.begin() + i); q.lhs.erase(q.lhs.begin() + i); q.rhs.erase(q.rhs.begin() + i); q.m--; return q; }
static LP drop_col(const LP &p, int j) { LP q = p; for (auto &r : q.A) r.erase(r.begin() + j); q.c.erase(q.c.begin() + j); q.lb.erase(q.lb.begin() + j); q.ub.erase(q.ub.begin() + j); q.n--; return q; }
static LP keep(const LP &p, bool cols, int a, int b) { LP q = p; if (cols) { for (auto &r : q.A) r.erase(r.begin() + a, r.begin() + b); q.c.erase(q.c.begin() + a, q.c.begin() + b); q.lb.erase(q.lb.begin() + a, q.lb.begin() + b); q.ub.erase(q.ub.begin() + a, q.ub.begin() + b); q.n -= b - a; } else { q.A.erase(q.A.begin() + a, q.A.begin() + b); q.lhs.erase(q.lhs.begin() + a, q.lhs.begin() + b); q.rhs.erase(q.rhs.begin() + a, q.rhs.begin() + b); q.m -= b - a; } return q; }
static Scenario minimise(Scenario s, const std::string &kind, double budget) {
    double end = now_s() + budget; bool go = true; auto time_ok = [&] { return now_s() < end; };
    auto attempt = [&](Scenario &c) { if (!time_ok()) return false; if (still(c, kind)) { s = c; go = true; return true; } return false; };
    for (int round = 0; go && round < 8 && time_ok(); round++) {
        go = false;
        { Scenario c = s; if (!c.cfg.jumps.empty()) { c.cfg.jumps.clear(); attempt(c); } }
        if (s.cfg.fill) { Scenario c = s; c.cfg.fill = 0; attempt(c); }
        if (s.cfg.pad) { Scenario c = s; c.cfg.pad = 0; attempt(c); }
        if (s.cfg.tie) { Scenario c = s; c.cfg.tie = 0; attempt(c); }
        if (s.cfg.ns_per_kstep) { Scenario c = s; c.cfg.ns_per_kstep = 0; attempt(c); }
        if (s.cfg.thread_fail) { Scenario c = s; c.cfg.thread_fail = 0; attempt(c); }
        if (s.cfg.sticky) { Scenario c = s; c.cfg.sticky = 0; attempt(c); }
        if (s.cfg.strat != ST_SEQ && !(s.cfg.strat == ST_TRACE && s.cfg.trace.empty())) { Scenario c = s; c.cfg.strat = ST_SEQ; c.cfg.trace.clear(); attempt(c); }
        for (size_t k = 0; k < s.lps.size(); k++) {
            for (int ch = s.lps[k].m / 2; ch > 1 && time_ok(); ch /= 2) for (int i = 0; i + ch <= s.lps[k].m && s.lps[k].m > ch && time_ok();) { Scenario c = s; c.lps[k] = keep(s.lps[k], false, i, i + ch); if (!attempt(c)) i += ch; }
            for (int ch = s.lps[k].n / 2; ch > 1 && time_ok(); ch /= 2) for (int j = 0; j + ch <= s.lps[k].n && s.lps[k].n > ch && time_ok();) { Scenario c = s; c.lps[k] = keep(s.lps[k], true, j, j + ch); if (!attempt(c)) j += ch; }
            for (int i = s.lps[k].m - 1; i >= 0 && time_ok(); i--) if (s.lps[k].m > 1) { Scenario c = s; c.lps[k] = drop_row(s.lps[k], i); attempt(c); }
            for (int j = s.lps[k].n - 1; j >= 0 && time_ok(); j--) if (s.lps[k].n > 1) { Scenario c = s; c.lps[k] = drop_col(s.lps[k], j); attempt(c); }
            for (int i = 0; i < s.lps[k].m; i++) for (int j = 0; j < s.lps[k].n && time_ok(); j++) if (s.lps[k].A[i][j] != 0) { Scenario c = s; c.lps[k].A[i][j] = 0; attempt(c); }
        }
        for (size_t k = 0; k < s.sets.size(); k++) for (int i = 0; i < 8 && time_ok(); i++) if (s.sets[k].b[i]) { Scenario c = s; c.sets[k].b[i] = 0; attempt(c); }
        for (size_t i = 0; i < s.args.size() && time_ok(); i++) if (s.args[i] > 0) for (int64_t v : {(int64_t)0, s.args[i] / 2, s.args[i] - 1}) if (v < s.args[i]) { Scenario c = s; c.args[i] = v; if (attempt(c)) break; }
        if (s.cfg.strat == ST_TRACE) for (size_t ch = std::max<size_t>(1, s.cfg.trace.size() / 2); time_ok(); ch /= 2) { for (size_t i = 0; i + ch <= s.cfg.trace.size() && time_ok();) { Scenario c = s; c.cfg.trace.erase(c.cfg.trace.begin() + i, c.cfg.trace.begin() + i + ch); if (!attempt(c)) i += ch; } if (ch <= 1) break; }
        for (size_t i = 0; i < s.cfg.jumps.size() && time_ok(); i++) { Scenario c = s; c.cfg.jumps.erase(c.cfg.jumps.begin() + i); if (attempt(c)) i--; }
        for (size_t k = 0; k < s.lps.size(); k++) for (int j = 0; j < s.lps[k].n && time_ok(); j++) { LP &p = s.lps[k];
            if (p.c[j] != 0) { Scenario c = s; c.lps[k].c[j] = 0; attempt(c); }
            if (std::isfinite(s.lps[k].ub[j]) && s.lps[k].ub[j] > s.lps[k].lb[j]) { Scenario c = s; c.lps[k].ub[j] = INFINITY; attempt(c); }
            if (std::isfinite(s.lps[k].lb[j]) && s.lps[k].lb[j] != 0 && s.lps[k].ub[j] > 0) { Scenario c = s; c.lps[k].lb[j] = 0; attempt(c); } }
        for (size_t k = 0; k < s.lps.size(); k++) for (int i = 0; i < s.lps[k].m && time_ok(); i++) { if (std::isfinite(s.lps[k].lhs[i]) && std::isfinite(s.lps[k].rhs[i]) && s.lps[k].lhs[i] != s.lps[k].rhs[i]) { Scenario c = s; c.lps[k].lhs[i] = -INFINITY; attempt(c); } }
        if (round == 0) for (size_t k = 0; k < s.lps.size(); k++) for (int i = 0; i < s.lps[k].m; i++) for (int j = 0; j < s.lps[k].n && time_ok(); j++) if (s.lps[k].A[i][j] != 0 && fabs(s.lps[k].A[i][j]) != 1) { Scenario c = s; c.lps[k].A[i][j] = c.lps[k].A[i][j] > 0 ? 1 : -1; attempt(c); }
    }
    return s;
}
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

static void worker(Shared *sh, const std::string &prop, uint64_t seed, int w, int W, uint64_t total, double deadline, uint64_t start) {
    g_sh = sh; g_quiet_child = true; int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
    cpu_set_t cs; CPU_ZERO(&cs); long nc = sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(w % (nc > 0 ? nc : 1), &cs); sched_setaffinity(0, sizeof cs, &cs);
    for (uint64_t i = start; i < total; i += (uint64_t)W) {
        sh->index = i; sh->bad = 1; if (now_s() > deadline) break;
        Scenario s = gen_scenario(prop, seed, i); g_run = RunInfo(); memcpy((void *)g_ctr, sh->ctr, sizeof sh->ctr);
        run_scenario(s);
        g_ctr[K_RUNS]++; memcpy(sh->ctr, g_ctr, sizeof sh->ctr);
        if (g_run.nontrivial) { sh->nontrivial++; set_add(sh->sig, sh->nsig, g_run.sig); } set_add(sh->sched, sh->nsched, g_run.sched);
        size_t n = std::min<size_t>(cov_total(), sizeof sh->cov); sh->cov_n = n; uint8_t *c = cov_begin(); for (size_t k = 0; k < n; k++) sh->cov[k] |= c[k] != 0;
        sh->heartbeat++; sh->bad = 0;
    }
    sh->done = 1; _exit(0);
}
static int check(const std::string &prop, const std::string &tier, uint64_t seed, uint64_t total, double limit, const std::string &evid, const std::string &rdir, const std::string &self, int W, const std::string &tag) {
    double t0 = now_s(); std::vector<Shared *> sh(W); std::vector<pid_t> pid(W, -1); std::vector<double> beat(W, t0); std::vector<uint64_t> last(W, 0);
    double deadline = t0 + limit; Verdict bad; bool found = false; uint64_t bad_index = 0; std::string err;
    fflush(stdout);
    for (int w = 0; w < W; w++) { sh[w] = new_shared(); pid[w] = fork(); if (pid[w] == 0) worker(sh[w], prop, seed, w, W, total, deadline, (uint64_t)w); }
    int alive = W, retries = 0; std::string unrep;
again:
    while (alive > 0 && !found && err.empty()) {
        for (int w = 0; w < W && !found; w++) { if (pid[w] < 0) continue; int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            if (r == pid[w]) { pid[w] = -1; alive--; if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->done) continue;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 42 && sh[w]->has_violation) { found = true; bad_index = sh[w]->index; }
                else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { found = true; bad_index = sh[w]->index; }
                else { err = "worker ended unexpectedly (status " + std::to_string(st) + ") at index " + std::to_string(sh[w]->index); } continue; }
            if (sh[w]->heartbeat != last[w]) { last[w] = sh[w]->heartbeat; beat[w] = now_s(); }
            else if (now_s() - beat[w] > 120) { found = true; bad_index = sh[w]->index; kill(pid[w], SIGKILL); } }
        usleep(2000);
    }
    for (int w = 0; w < W; w++) if (pid[w] > 0) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); pid[w] = -1; }
    double search_wall = now_s() - t0;
    int rc = 0; std::string replay; Scenario s; Verdict a;
    if (found) {
        s = gen_scenario(prop, seed, bad_index); a = run_forked(s, 90); Verdict b = run_forked(s, 90);
        if (!a.violated || !b.violated || a.kind != b.kind || a.hash != b.hash) { // corrupted by an earlier run of the same worker: go on behind it
            char m[200]; snprintf(m, sizeof m, "run %llu is not reproducible (%s/%s, %llx/%llx)", (unsigned long long)bad_index, a.kind.c_str(), b.kind.c_str(), (unsigned long long)a.hash, (unsigned long long)b.hash); unrep = m; found = false;
            if (++retries < 20 && now_s() < deadline) { alive = 0;
                for (int w = 0; w < W; w++) { if (sh[w]->done) continue; uint64_t at = sh[w]->index; if (at < (uint64_t)w) at = w; if (at == bad_index) at += (uint64_t)W; sh[w]->has_violation = 0; beat[w] = now_s(); pid[w] = fork(); if (pid[w] == 0) worker(sh[w], prop, seed, w, W, total, deadline, at); alive++; }
                goto again; } } }
    if (!found && err.empty()) err = unrep;
    if (!err.empty()) { fprintf(stderr, "check error: %s\n", err.c_str()); rc = 3; }
    if (found) {
        {
            // pin the schedule as an explicit trace when that still fails
            Scenario m = s; double budget = a.kind == "hang" ? 5 : 60;
            if (s.cfg.strat != ST_SEQ && !a.trace.empty() && a.trace.size() < 4096) { Scenario c = s; c.cfg.strat = ST_TRACE; c.cfg.trace = a.trace; if (still(c, a.kind)) m = c; }
            m = minimise(m, a.kind, budget);
            Verdict f1 = run_forked(m, 90), f2 = run_forked(m, 90);
            if (!f1.violated || f1.kind != a.kind || f1.hash != f2.hash) { m = s; f1 = a; }
            mkdir(rdir.c_str(), 0777); replay = rdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(bad_index) + ".replay";
            { std::ofstream o(replay); o << "# kind " << f1.kind << "\n# what " << f1.msg << "\n# found by run " << bad_index << " of VERIF_SEED " << seed << ", minimised with " << g_cand << " candidate runs\n" << m.text(); }
            std::string cmd = "'" + self + "' --replay '" + replay + "' >/dev/null 2>&1"; int q = system(cmd.c_str());
            if (!(WIFEXITED(q) && WEXITSTATUS(q) == 1)) { fprintf(stderr, "check error: replay file does not reproduce (status %d)\n", q); rc = 3; }
            else { printf("%s: %s\n", f1.kind.c_str(), f1.msg.c_str()); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str()); rc = 1; bad = f1; }
        }
    }
    // evidence
    uint64_t ctr[K_COUNT] = {0}; std::unordered_set<uint64_t> sig, sched; uint64_t nontriv = 0; std::vector<uint8_t> cov(65536, 0); size_t covn = 0;
    for (int w = 0; w < W; w++) { for (int k = 0; k < K_COUNT; k++) ctr[k] += sh[w]->ctr[k]; nontriv += sh[w]->nontrivial; for (uint64_t v : sh[w]->sig) if (v) sig.insert(v); for (uint64_t v : sh[w]->sched) if (v) sched.insert(v);
        covn = std::max<size_t>(covn, sh[w]->cov_n); for (size_t k = 0; k < sh[w]->cov_n; k++) cov[k] |= sh[w]->cov[k]; }
    size_t edges = 0; for (size_t k = 0; k < covn; k++) edges += cov[k];
    double wall = now_s() - t0;
    if (!evid.empty()) {
        std::ofstream o(evid); double hr = search_wall / 3600.0;
        o << "{\n \"property\": \"" << prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n";
        o << "  \"evaluations\": " << ctr[K_RUNS] << ",\n  \"distinct_nontrivial\": " << sig.size() << ",\n";
        o << "  \"rule\": \"one evaluation = one seeded simulated scenario (LP(s), settings, faults, schedule all derived from VERIF_SEED and the run index); distinct = different behaviour signature (statuses, reduced dimensions, per-family reduction counts, fault outcomes); non-trivial = the scenario reached the situation the property is about (the fault fired / the limit cut the run / threads interleaved / a reduction or verdict happened)\",\n";
        o << "  \"nontrivial_runs\": " << nontriv << ",\n  \"distinct_schedules\": " << sched.size() << ",\n";
        o << "  \"runs_per_hour_one_seed_each\": " << (uint64_t)(ctr[K_RUNS] / std::max(hr, 1e-9)) << ",\n  \"simulated_executions\": " << ctr[K_EXECS] << ",\n";
        o << "  \"simulated_seconds\": " << ctr[K_SIMNS_MS] / 1e6 << ",\n";
        o << "  \"library_edges_reached\": " << edges << ",\n  \"library_edges_total\": " << covn << ",\n  \"counters\": {";
        for (int k = 1; k < K_COUNT; k++) if (ctr_name[k] && ctr_name[k][0]) o << (k > 1 ? ", " : "") << "\"" << ctr_name[k] << "\": " << ctr[k];
        o << "},\n  \"real_components\": [\"all of src/core and src/explorers except Debugger.c, compiled from the working tree (NDEBUG, shipped configuration)\"],\n  \"stubbed_components\": [\"allocator\", \"clock\", \"thread start/join (real OS threads, scheduler decides who runs)\", \"qsort\", \"stdio\", \"process exit\", \"mem* functions (checked)\"],\n";
        o << "  \"samples\": ["; for (int k = 0; k < 2; k++) { Scenario s = gen_scenario(prop, seed, (uint64_t)k); o << (k ? ", " : "") << "\"" << jesc(s.text()) << "\""; } o << "]\n },\n";
        o << " \"assumptions\": [\"clang code generation and x86-64 IEEE arithmetic\", \"the reference LP solver (long double simplex, every verdict certificate-checked; undecided cases are skipped and counted)\"],\n";
        o << " \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    }
    printf("%s %s: %llu runs, %llu non-trivial, %zu behaviours, %zu schedules, %zu/%zu edges, %.1f s%s\n", prop.c_str(), tier.c_str(), (unsigned long long)ctr[K_RUNS], (unsigned long long)nontriv, sig.size(), sched.size(), edges, covn, wall, rc == 0 ? ", no violation" : "");
    if (getenv("PSLPSIM_COV")) { FILE *f = fopen(getenv("PSLPSIM_COV"), "w"); for (size_t k = 0; k < covn; k++) fputc('0' + cov[k], f); fclose(f); }
    if (getenv("PSLPSIM_CTR")) for (int k = 0; k < K_COUNT; k++) if (ctr_name[k] && ctr_name[k][0] && ctr[k]) printf("  %-24s %llu\n", ctr_name[k], (unsigned long long)ctr[k]);
    if (rc == 0 && ctr[K_RUNS] == 0) { fprintf(stderr, "check error: nothing ran\n"); rc = 3; }
    return rc;
}
// all violations of a batch, one line each (development aid): a worker that dies is restarted behind the run that ended it
static int sweep(const std::string &prop, uint64_t seed, uint64_t from, uint64_t total, double limit, int W, int show) {
    std::vector<Shared *> sh(W); std::vector<pid_t> pid(W, -1); double deadline = now_s() + limit; std::map<std::string, int> cnt; uint64_t runs = 0; int alive = 0; fflush(stdout);
    auto start = [&](int w, uint64_t at) { sh[w]->has_violation = 0; sh[w]->done = 0; pid[w] = fork(); if (pid[w] == 0) worker(sh[w], prop, seed, w, W, total, deadline, at); alive++; };
    for (int w = 0; w < W; w++) { sh[w] = new_shared(); start(w, from + (uint64_t)w); }
    while (alive > 0) { int st; pid_t r = waitpid(-1, &st, 0); if (r < 0) break; for (int w = 0; w < W; w++) if (pid[w] == r) { pid[w] = -1; alive--; if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            std::string kind = WIFEXITED(st) && WEXITSTATUS(st) == 42 ? sh[w]->kind : "crash", msg = kind == "crash" ? "" : sh[w]->msg; uint64_t i = sh[w]->index; if (cnt[kind]++ < show) { printf("%llu %s: %s\n", (unsigned long long)i, kind.c_str(), msg.c_str()); fflush(stdout); } start(w, i + (uint64_t)W); } }
    for (int w = 0; w < W; w++) runs += sh[w]->ctr[K_RUNS]; printf("%s seed %llu: %llu clean runs;", prop.c_str(), (unsigned long long)seed, (unsigned long long)runs); for (auto &c : cnt) printf(" %s %d", c.first.c_str(), c.second); printf("\n"); return 0;
}
int main(int argc, char **argv) {
    std::map<std::string, std::string> o; for (int i = 1; i + 1 < argc + 1; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0) { if (i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) { o[a] = argv[i + 1]; i++; } else o[a] = ""; } }
    sim_init();
    char selfp[4096]; ssize_t sl = readlink("/proc/self/exe", selfp, sizeof selfp - 1); selfp[sl > 0 ? sl : 0] = 0;
    auto U = [&](const char *k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    if (o.count("--replay")) {
        Scenario s; if (!Scenario::parse(slurp(o["--replay"]), s)) { fprintf(stderr, "cannot read replay file\n"); return 3; }
        Verdict v = run_forked(s, 120); if (v.error) { fprintf(stderr, "replay error: %s\n", v.msg.c_str()); return 3; }
        printf("hash %016llx\n", (unsigned long long)v.hash);
        if (v.violated) { printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.kind.c_str(), v.msg.c_str(), s.prop.c_str(), o["--replay"].c_str()); return 1; }
        printf("no violation\n"); return 0;
    }
    if (o.count("--gen")) { printf("%s", gen_scenario(o["--gen"], U("--seed", 1), U("--index", 0)).text().c_str()); return 0; }
    if (o.count("--hashes")) { // determinism probe: event hashes of runs [--from, --to)
        for (uint64_t i = U("--from", 0); i < U("--to", 100); i++) { Scenario s = gen_scenario(o["--hashes"], U("--seed", 1), i); if (o.count("--forked")) { Verdict v = run_forked(s, 60); printf("%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)v.hash, v.kind.c_str()); }
            else { g_run = RunInfo(); run_scenario(s); printf("%llu %016llx \n", (unsigned long long)i, (unsigned long long)g_run.hash); } } return 0; }
    if (o.count("--survey")) { // all violations in a range, one line each (development aid)
        std::map<std::string, int> cnt; uint64_t to = U("--to", 1000); for (uint64_t i = U("--from", 0); i < to; i++) { Scenario s = gen_scenario(o["--survey"], U("--seed", 1), i); Verdict v = run_forked(s, 60); if (v.violated || v.error) { std::string key = v.kind; if (cnt[key]++ < (int)U("--show", 3)) printf("%llu %s: %s\n", (unsigned long long)i, v.kind.c_str(), v.msg.c_str()); } }
        for (auto &c : cnt) printf("%s %d\n", c.first.c_str(), c.second); return 0; }
    if (o.count("--sweep")) return sweep(o["--sweep"], U("--seed", 1), U("--from", 0), U("--runs", 100000), (double)U("--limit", 300), (int)U("--workers", (uint64_t)sysconf(_SC_NPROCESSORS_ONLN)), (int)U("--show", 10));
    if (o.count("--min")) { Scenario s = gen_scenario(o["--min"], U("--seed", 1), U("--index", 0)); Verdict a = run_forked(s, 60); if (!a.violated) { printf("no violation\n"); return 0; } Scenario m = minimise(s, a.kind, (double)U("--budget", 30)); Verdict b = run_forked(m, 60); printf("# %s: %s\n%s", b.kind.c_str(), b.msg.c_str(), m.text().c_str()); return 1; }
    if (o.count("--check")) { std::string p = o["--check"]; if (!known_prop(p)) { fprintf(stderr, "unknown property\n"); return 3; }
        int W = (int)U("--workers", (uint64_t)std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)));
        return check(p, o.count("--tier") ? o["--tier"] : "quick", U("--seed", 1), U("--runs", 10000), (double)U("--limit", 300), o["--evidence"], o.count("--replays") ? o["--replays"] : "/tmp/pslpsim-replays", selfp, W, ""); }
    fprintf(stderr, "usage: pslpsim --check ID | --replay FILE | --gen ID --index N\n"); return 3;
}
