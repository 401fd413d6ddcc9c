// Scenario generation, execution and oracles for every property.
#include "scen.h"
#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <memory>
#include <set>

uint64_t g_ctr[K_COUNT];
RunInfo g_run;
const char *ctr_name[K_COUNT] = {"runs", "executions", "memory_events", "context_switches", "allocations", "alloc_faults_fired", "thread_start_faults_fired", "threads_started", "clock_reads", "clock_jumps_fired", "simulated_us", "sort_ties", "process_exits", "oracle_undecided", "lp_optimal", "lp_infeasible", "lp_unbounded",
    "status_unchanged", "status_reduced", "status_infeasible", "status_unbndorinfeas", "postsolves", "runs_cut_by_limit", "unique_solution_runs", "null_creations", "concurrent_accesses_checked", "empty_reduced_problems", "caller_arrays_released", "caller_arrays_overwritten", "interleaved_histories", "faults_in_run", "faults_in_postsolve", "faults_in_creation", "outputs_compared", "nondegenerate_dual_checks", "rescaled_confirmations"};

// ------------------------------------------------------------------ caller side
struct Inputs { double *Ax, *lhs, *rhs, *lbs, *ubs, *c; int *Ai, *Ap; size_t m, n, nnz; std::vector<void *> all; };
template <class V> static V *ualloc(const std::vector<V> &v, Inputs *in = nullptr) { V *p = (V *)user_alloc(v.size() * sizeof(V), true); if (!p) violation("harness", "heap exhausted"); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(V)); if (in) in->all.push_back(p); return p; }
static Inputs make_inputs(const LP &p) {
    Inputs q; std::vector<double> ax; std::vector<int> ai, ap{0};
    for (int i = 0; i < p.m; i++) { for (int j = 0; j < p.n; j++) if (p.A[i][j] != 0) { ax.push_back(p.A[i][j]); ai.push_back(j); } ap.push_back((int)ax.size()); }
    q.m = (size_t)p.m; q.n = (size_t)p.n; q.nnz = ax.size();
    q.Ax = ualloc(ax, &q); q.Ai = ualloc(ai, &q); q.Ap = ualloc(ap, &q); q.lhs = ualloc(p.lhs, &q); q.rhs = ualloc(p.rhs, &q); q.lbs = ualloc(p.lb, &q); q.ubs = ualloc(p.ub, &q); q.c = ualloc(p.c, &q); return q;
}
static void fill_settings(Settings *s, const SetSpec &q) {
    s->ston_cols = q.b[0]; s->dton_eq = q.b[1]; s->parallel_rows = q.b[2]; s->parallel_cols = q.b[3]; s->primal_propagation = q.b[4]; s->finite_bound_tightening = q.b[5]; s->dual_fix = q.b[6]; s->relax_bounds = q.b[7];
    s->max_shift = q.max_shift; s->max_time = q.max_time; s->verbose = q.verbose;
}
static Settings *user_settings(const SetSpec &q) { Settings *s = (Settings *)user_alloc(sizeof(Settings), false); memset(s, 0, sizeof *s); fill_settings(s, q); user_protect(s, true); return s; }
static Presolver *create(const Inputs &q, const Settings *s) { return new_presolver(q.Ax, q.Ai, q.Ap, q.m, q.n, q.nnz, q.lhs, q.rhs, q.lbs, q.ubs, q.c, s); }

// Propagation rounds bounds outwards by about the feasibility tolerance (1e-6) and may fix a variable anywhere within it, so its
// verdicts are judged on problems whose feasibility does not hinge on that tolerance; without it only rounding errors occur.
static bool narrow(const LP &p) { for (int j = 0; j < p.n; j++) if (p.ub[j] > p.lb[j] && p.ub[j] - p.lb[j] < 4e-3) return true; for (int i = 0; i < p.m; i++) if (p.rhs[i] > p.lhs[i] && p.rhs[i] - p.lhs[i] < 4e-3) return true; return false; } // a substitution may make it narrower than the tolerance
static bool well_posed(const LP &p, const SetSpec &q) { return (!q.b[4] && !narrow(p)) || lp_feasible_with_margin(p); }
// costs that cancel only up to rounding (0.1 and the like) do not decide boundedness: then a change of the costs in the tenth digit makes the problem unbounded
static bool cost_robust(const LP &p) {
    auto exact = [](double v) { return !std::isfinite(v) || v * 1024 == std::floor(v * 1024); }; bool ex = true;
    for (auto &r : p.A) for (double v : r) ex = ex && (v == 0 || fabs(v) == 1); /* pivots of one: ratios of costs stay exact */ for (double v : p.c) ex = ex && exact(v); if (ex) return true;
    for (int k = 0; k < 4; k++) { LP q = p; for (int j = 0; j < p.n; j++) q.c[j] *= 1 + 2e-6 * (((j * 7 + (k >> 1) * 3 + 1) % 5) - 2) * (k & 1 ? 1 : -1); if (lp_solve(q).st != LP_OPT) return false; }
    return true;
}
// infeasibility that vanishes when every side and bound gives way by the feasibility tolerance may go unnoticed: then nothing is decided
static bool infeasible_with_margin(const LP &p) { LP q = p; auto w = [](double v) { return 1e-3 * (1 + fabs(v)); }; for (int i = 0; i < p.m; i++) { if (std::isfinite(p.lhs[i])) q.lhs[i] -= w(p.lhs[i]); if (std::isfinite(p.rhs[i])) q.rhs[i] += w(p.rhs[i]); } for (int j = 0; j < p.n; j++) { if (std::isfinite(p.lb[j])) q.lb[j] -= w(p.lb[j]); if (std::isfinite(p.ub[j])) q.ub[j] += w(p.ub[j]); q.c[j] = 0; } return lp_solve(q).st == LP_INFEAS; }
// how far the optimal value may move when every side and bound is off by about the feasibility tolerance
static LD value_tol(const LP &p, const LpSol &s) { LD t = 1e-5L * (1 + fabsl(s.obj)); auto w = [](double l, double u, LD d) { double b = d > 0 ? l : u; return fabsl(d) * (1 + (std::isfinite(b) ? fabsl((LD)b) : 0)); }; if (s.y.size() == (size_t)p.m && s.z.size() == (size_t)p.n) { for (int i = 0; i < p.m; i++) t += 4e-6L * w(p.lhs[i], p.rhs[i], s.y[i]); for (int j = 0; j < p.n; j++) t += 4e-6L * w(p.lb[j], p.ub[j], s.z[j]); } return t; }
struct Sol { std::vector<double> x, y, z; size_t dx = 0, dy = 0; };
struct Outcome {
    bool null = false; int status = -1; bool red = false; size_t m = 0, n = 0, nnz = 0; std::vector<double> Ax, lhs, rhs, c, lbs, ubs; std::vector<int> Ai, Ap; double off = 0;
    size_t st[11] = {0}; double tm[8] = {0}; std::vector<Sol> sols; std::vector<std::pair<std::string, std::string>> shape; // deferred shape problems
    std::string bytes() const {
        std::string o; auto add = [&](const void *p, size_t n) { o.append((const char *)p, n); }; auto av = [&](const auto &v) { size_t k = v.size(); add(&k, sizeof k); if (k) add(v.data(), k * sizeof(v[0])); };
        add(&null, 1); add(&status, sizeof status); add(&red, 1); add(&m, 8); add(&n, 8); add(&nnz, 8); av(Ax); av(lhs); av(rhs); av(c); av(lbs); av(ubs); av(Ai); av(Ap); add(&off, 8); add(st, sizeof st); for (auto &s : sols) { av(s.x); av(s.y); av(s.z); add(&s.dx, 8); add(&s.dy, 8); } return o; }
};
static void need(const void *p, size_t n, const char *what) { if (!sim_is_live(p, n)) violation("dangling-output", std::string("the library exposes memory that is not live: ") + what); }
static void capture_stats(const Presolver *P, Outcome &o) {
    need(P, sizeof *P, "presolver"); need(P->stats, sizeof(PresolveStats), "stats"); const PresolveStats &s = *P->stats;
    size_t v[11] = {s.n_rows_original, s.n_cols_original, s.nnz_original, s.n_rows_reduced, s.n_cols_reduced, s.nnz_reduced, s.nnz_removed_trivial, s.nnz_removed_fast, s.nnz_removed_primal_propagation, s.nnz_removed_parallel_rows, s.nnz_removed_parallel_cols};
    memcpy(o.st, v, sizeof v); double t[8] = {s.time_init, s.time_fast_reductions, s.time_medium_reductions, s.time_primal_propagation, s.time_parallel_rows, s.time_parallel_cols, s.time_presolve, s.time_postsolve}; memcpy(o.tm, t, sizeof t);
}
static void capture_reduced(const Presolver *P, Outcome &o) {
    need(P->reduced_prob, sizeof(PresolvedProblem), "reduced problem"); const PresolvedProblem &r = *P->reduced_prob; o.m = r.m; o.n = r.n; o.nnz = r.nnz; o.off = r.obj_offset; o.red = true;
    if (o.m > 100000 || o.n > 100000 || o.nnz > 10000000) violation("malformed-reduced", "absurd reduced dimensions");
    need(r.Ap, (o.m + 1) * sizeof(int), "row pointers"); need(r.Ax, o.nnz * 8, "coefficients"); need(r.Ai, o.nnz * 4, "column indices"); need(r.lhs, o.m * 8, "lhs"); need(r.rhs, o.m * 8, "rhs"); need(r.c, o.n * 8, "cost"); need(r.lbs, o.n * 8, "lower bounds"); need(r.ubs, o.n * 8, "upper bounds");
    o.Ap.assign(r.Ap, r.Ap + o.m + 1); o.Ax.assign(r.Ax, r.Ax + o.nnz); o.Ai.assign(r.Ai, r.Ai + o.nnz); o.lhs.assign(r.lhs, r.lhs + o.m); o.rhs.assign(r.rhs, r.rhs + o.m); o.c.assign(r.c, r.c + o.n); o.lbs.assign(r.lbs, r.lbs + o.n); o.ubs.assign(r.ubs, r.ubs + o.n);
}
static bool is_verdict(int st) { return st != UNCHANGED && st != REDUCED; }
static Sol call_post(Presolver *P, const std::vector<double> &x, const std::vector<double> &y, const std::vector<double> &z) {
    double *px = ualloc(x), *py = ualloc(y), *pz = ualloc(z); postsolve(P, px, py, pz);
    if (x.size() && memcmp(px, x.data(), x.size() * 8)) violation("input-modified", "postsolve changed the caller's x");
    if (y.size() && memcmp(py, y.data(), y.size() * 8)) violation("input-modified", "postsolve changed the caller's y");
    if (z.size() && memcmp(pz, z.data(), z.size() * 8)) violation("input-modified", "postsolve changed the caller's z");
    user_release(px); user_release(py); user_release(pz);
    need(P->sol, sizeof(Solution), "solution"); Sol s; s.dx = P->sol->dim_x; s.dy = P->sol->dim_y; if (s.dx > 100000 || s.dy > 100000) violation("malformed-solution", "absurd solution dimensions");
    need(P->sol->x, s.dx * 8, "x"); need(P->sol->y, s.dy * 8, "y"); need(P->sol->z, s.dx * 8, "z");
    s.x.assign(P->sol->x, P->sol->x + s.dx); s.y.assign(P->sol->y, P->sol->y + s.dy); s.z.assign(P->sol->z, P->sol->z + s.dx); g_ctr[K_POSTSOLVES]++; return s;
}
static bool shape_ok(const Outcome &o, std::string *why = nullptr) {
    auto bad = [&](const std::string &s) { if (why) *why = s; return false; };
    if (o.Ap.empty() || o.Ap[0] != 0) return bad("row pointers do not start at zero");
    for (size_t i = 0; i < o.m; i++) if (o.Ap[i + 1] < o.Ap[i]) return bad("row pointers decrease");
    if ((size_t)o.Ap[o.m] != o.nnz) return bad("row pointers do not end at the nonzero count");
    for (size_t i = 0; i < o.m; i++) for (int k = o.Ap[i]; k < o.Ap[i + 1]; k++) { if (o.Ai[k] < 0 || (size_t)o.Ai[k] >= o.n) return bad("column index out of range"); if (k > o.Ap[i] && o.Ai[k] <= o.Ai[k - 1]) return bad("column indices not strictly increasing"); }
    return true;
}
static LP to_lp(const Outcome &o) { LP p; p.resize((int)o.m, (int)o.n); for (size_t i = 0; i < o.m; i++) { for (int k = o.Ap[i]; k < o.Ap[i + 1]; k++) p.A[i][o.Ai[k]] += o.Ax[k]; p.lhs[i] = o.lhs[i]; p.rhs[i] = o.rhs[i]; } for (size_t j = 0; j < o.n; j++) { p.c[j] = o.c[j]; p.lb[j] = o.lbs[j]; p.ub[j] = o.ubs[j]; } return p; }
static std::vector<double> dv(const std::vector<LD> &v) { return std::vector<double>(v.begin(), v.end()); }

static void account() {
    g_ctr[K_EXECS]++; g_ctr[K_STEPS] += g_st.steps; g_ctr[K_SWITCH] += g_st.switches; g_ctr[K_ALLOCS] += g_st.allocs + g_st.reallocs; g_ctr[K_ALLOCFAIL] += g_st.alloc_fail; g_ctr[K_THREADFAIL] += g_st.thread_fail; g_ctr[K_THREADS] += g_st.threads; g_ctr[K_CLOCKREADS] += g_st.clock_reads; g_ctr[K_JUMPS] += g_st.jumps_fired;
    g_ctr[K_SIMNS_MS] += (uint64_t)(g_st.sim_ns / 1000); g_ctr[K_TIES] += g_st.tie_groups; g_ctr[K_EXITS] += g_st.exits; g_ctr[K_ACCMT] += g_st.accesses_mt;
    g_run.hash = mix(g_run.hash, g_st.hash); g_run.sched = mix(g_run.sched, g_st.sched_hash);
}
static void sigadd(uint64_t v) { g_run.sig = mix(g_run.sig + 1, v); }
static void sig_outcome(const Outcome &o) { sigadd((uint64_t)o.status * 2 + o.null); for (size_t v : o.st) sigadd(v); sigadd(o.m); sigadd(o.n); sigadd(o.nnz); }
static void count_status(int st) { if (st == UNCHANGED) g_ctr[K_ST_UNCHANGED]++; else if (st == REDUCED) g_ctr[K_ST_REDUCED]++; else if (st == INFEASIBLE) g_ctr[K_ST_INFEAS]++; else if (st == UNBNDORINFEAS) g_ctr[K_ST_UNBND]++; }

// simple complete life of one presolver inside the current task; `posts` solutions are given as vectors
struct PostReq { std::vector<double> x, y, z; };
static PostReq arb_post(size_t n, size_t m, uint64_t seed) { Rng r(seed); PostReq p; p.x.resize(n); p.y.resize(m); p.z.resize(n); for (double &v : p.x) v = r.range(-40, 40) / 8.0; for (double &v : p.y) v = r.range(-40, 40) / 8.0; for (double &v : p.z) v = r.range(-40, 40) / 8.0; return p; }
static Outcome life(const Inputs &in, const Settings *s, int nposts, uint64_t pseed) {
    Outcome o; Presolver *P = create(in, s); if (!P) { o.null = true; return o; }
    o.status = run_presolver(P); capture_stats(P, o);
    if (!is_verdict(o.status)) { capture_reduced(P, o); for (int k = 0; k < nposts; k++) { PostReq q = arb_post(o.n, o.m, mix(pseed, (uint64_t)k)); o.sols.push_back(call_post(P, q.x, q.y, q.z)); } }
    free_presolver(P); return o;
}
static SimCfg ref_cfg(const SimCfg &c) { SimCfg r; r.rseed = c.rseed; r.tie = c.tie; r.tick_ns = 50; r.mem_fatal = c.mem_fatal; return r; }
static Outcome reference(const Scenario &s, const LP &p, const SetSpec &q, int nposts, uint64_t pseed) {
    Outcome o; SimCfg c = ref_cfg(s.cfg); sim_begin(c); Inputs in = make_inputs(p); Settings *st = user_settings(q); sim_run({[&] { o = life(in, st, nposts, pseed); }}); account();
    if (sim_exited()) violation("unexpected-exit", "the library ended the process without any fault: " + g_err); return o;
}
static void no_exit() { if (sim_exited()) violation("unexpected-exit", "the library ended the process without any fault: " + g_err); }

static std::string lpd(LD v) { char b[40]; snprintf(b, sizeof b, "%.9Lg", v); return b; }

// ------------------------------------------------------------------ P01..P05: semantics under arbitrary cut points, tie orders, schedules
// A deviation of the size that the documented feasibility tolerance (1e-6, amplified by coefficient ratios) can explain is "soft": it
// counts only if it persists when all sides and bounds are rescaled, because the effect of a tolerance shrinks with the data and a
// structural mistake does not. Anything grosser counts at once.
struct Fail { std::string kind, msg; bool soft = false; };
// a random feasible point of p (a vertex or a mix of two), not optimal for anything in particular
static bool feasible_point(const LP &p, Rng &r, std::vector<LD> &x) {
    std::vector<LD> a[2]; int k = r.chance(0.5) ? 2 : 1;
    for (int t = 0; t < k; t++) { LP q = p; for (int j = 0; j < p.n; j++) { q.c[j] = r.chance(0.3) ? 0 : r.range(-3, 3); double B = r.range(1, 60); if (!std::isfinite(q.lb[j])) q.lb[j] = std::min(-B, q.ub[j] - B); if (!std::isfinite(q.ub[j])) q.ub[j] = std::max(B, q.lb[j] + B); }
        LP g = q; if (p.n && r.chance(0.4)) { int j = (int)r.below(p.n); double v = (double)(r.range(-8, 8) + r.range(-1, 1) * powl(10, -(LD)r.range(2, 7))); if (q.lb[j] < v && v < q.ub[j]) q.lb[j] = q.ub[j] = v; } // close to, and not at, a round value
        LpSol v = lp_solve(q); if (v.st != LP_OPT) v = lp_solve(g); if (v.st != LP_OPT) return false; a[t] = v.x; }
    LD w = k == 2 ? (r.chance(0.3) ? powl(10, -(LD)r.range(2, 8)) : (LD)r.unit()) : 1; x.resize(p.n); for (int j = 0; j < p.n; j++) { x[j] = w * a[0][j]; if (k == 2) x[j] += (1 - w) * a[1][j]; } return true;
}
// another optimal pair, accurate enough to be handed to postsolve
static LpSol alternative(const LP &p, const LpSol &s, Rng &r) {
    LpSol a = lp_alternative(p, s, r, 1 + (int)r.below(7)); LD e = 0;
    for (int j = 0; j < p.n; j++) e = std::max({e, p.lb[j] - a.x[j], a.x[j] - p.ub[j]}); for (int i = 0; i < p.m; i++) { LD v = 0; for (int j = 0; j < p.n; j++) v += p.A[i][j] * a.x[j]; e = std::max({e, p.lhs[i] - v, v - p.rhs[i]}); }
    return e < 1e-8L && lp_pair_error(p, a.x, a.y, true) < 1e-7L ? a : s; }
static const LD g_noise[] = {1e-7L, 1e-9L, 1e-11L, 1e-13L};
static bool semantic_once(const Scenario &s, const LP &p, Fail &f) {
    const SetSpec &q = s.sets[0]; const std::string &id = s.prop;
    auto fail = [&](const std::string &k, const std::string &m, bool soft = false) { f.kind = k; f.msg = m; f.soft = soft; return true; };
    Outcome o; LpSol orig, red; LP rlp; std::vector<Sol> sols; std::vector<LpSol> given; std::string why; bool wf = true, leftover = false;
    bool arb = id == "P16" || id == "P17"; SetSpec q2; Outcome o2; LpSol red2; std::vector<std::vector<double>> ay; bool twice = false;
    if (id != "P17" && id != "P18" && id != "P19") orig = lp_solve(p); if (orig.st == LP_OPT) g_ctr[K_OPT]++; else if (orig.st == LP_INFEAS) g_ctr[K_INFEAS]++; else if (orig.st == LP_UNBND) g_ctr[K_UNBND]++; else g_ctr[K_SKIPPED]++;
    sim_begin(s.cfg); Inputs in = make_inputs(p); Settings *st = user_settings(q);
    int64_t npost = s.args.size() > 0 ? s.args[0] : 0; uint64_t pseed = s.args.size() > 1 ? (uint64_t)s.args[1] : 0;
    sim_run({[&] {
        Presolver *P = create(in, st); if (!P) violation("creation-failed", "creation returned NULL although nothing failed");
        o.status = run_presolver(P); capture_stats(P, o);
        if (id == "P01") { free_presolver(P); return; }
        if (!is_verdict(o.status)) {
            capture_reduced(P, o); wf = shape_ok(o, &why);
            if (arb && wf) { rlp = to_lp(o);
                for (int k = 0; k < npost; k++) { Rng r(mix(pseed, (uint64_t)k)); LpSol a; PostReq t = arb_post(o.n, o.m, r.next()); bool fp = feasible_point(rlp, r, a.x); if (!fp) { if (id == "P16") break; a.x.assign(t.x.begin(), t.x.end()); } if (id == "P17" && r.chance(0.3)) a.x.assign(t.x.begin(), t.x.end());
                    if (id == "P17") { if (r.chance(0.3)) for (double &v : t.y) if (r.chance(0.6)) v = 0; for (int j = 0; j < rlp.n; j++) { LD z = rlp.c[j]; for (int i = 0; i < rlp.m; i++) z -= rlp.A[i][j] * (LD)t.y[i]; t.z[j] = (double)z; } }
                    given.push_back(a); ay.push_back(t.y); sols.push_back(call_post(P, dv(a.x), t.y, t.z)); } }
            else if (id == "P20" && wf) { rlp = to_lp(o); twice = true; Rng r(pseed); if (npost & 1) { for (int &b : q2.b) b = r.chance(0.7); q2.max_shift = q.max_shift; } else q2 = q; q2.max_time = q.max_time; q2.verbose = 0;
                const PresolvedProblem &rp = *P->reduced_prob; Settings *st2 = user_settings(q2); Presolver *P2 = new_presolver(rp.Ax, rp.Ai, rp.Ap, rp.m, rp.n, rp.nnz, rp.lhs, rp.rhs, rp.lbs, rp.ubs, rp.c, st2); if (!P2) violation("creation-failed", "the reduced problem is rejected as input");
                o2.status = run_presolver(P2); if (!is_verdict(o2.status)) { capture_reduced(P2, o2); if (!shape_ok(o2, &why)) wf = false; else { LP l2 = to_lp(o2); red2 = lp_solve(l2); if (red2.st == LP_OPT) { Sol t = call_post(P2, dv(red2.x), dv(red2.y), dv(red2.z)); given.push_back(red2); sols.push_back(call_post(P, t.x, t.y, t.z)); } } }
                Outcome c; c.status = o.status; capture_reduced(P, c); if (c.Ax != o.Ax || c.Ai != o.Ai || c.Ap != o.Ap || c.lhs != o.lhs || c.rhs != o.rhs || c.c != o.c || c.lbs != o.lbs || c.ubs != o.ubs) violation("input-modified", "presolving the reduced problem again changed it"); free_presolver(P2); }
            else if (id != "P05" && id != "P18" && id != "P19" && wf) { rlp = to_lp(o); red = lp_solve(rlp);
                if (id == "P21" && red.st == LP_OPT) { Rng r(pseed); LpSol a = npost > 1 ? alternative(rlp, red, r) : red; bool clip = r.chance(0.5); std::vector<LD> ux(rlp.n), uy(rlp.m); for (LD &v : ux) v = r.range(-8, 8) / 8.0L; for (LD &v : uy) v = r.range(-8, 8) / 8.0L;
                    for (LD e : g_noise) { PostReq t; for (int j = 0; j < rlp.n; j++) { double v = (double)(a.x[j] + e * ux[j] * (1 + fabsl(a.x[j]))); t.x.push_back(clip ? std::min(std::max(v, rlp.lb[j]), rlp.ub[j]) : v); } for (int i = 0; i < rlp.m; i++) t.y.push_back((double)(a.y[i] + e * uy[i] * (1 + fabsl(a.y[i])))); for (int j = 0; j < rlp.n; j++) { LD z = rlp.c[j]; for (int i = 0; i < rlp.m; i++) z -= rlp.A[i][j] * (LD)t.y[i]; t.z.push_back((double)z); } given.push_back(a); sols.push_back(call_post(P, t.x, t.y, t.z)); } }
                if ((id == "P03" || id == "P04") && red.st == LP_OPT) for (int k = 0; k < npost; k++) { Rng r(mix(pseed, (uint64_t)k)); LpSol a = k == 0 ? red : alternative(rlp, red, r); given.push_back(a); sols.push_back(call_post(P, dv(a.x), dv(a.y), dv(a.z))); } }
        } else if (id == "P05") { need(P->reduced_prob, sizeof(PresolvedProblem), "reduced problem"); const PresolvedProblem &r = *P->reduced_prob; leftover = r.m || r.n || r.nnz || r.Ax || r.Ai || r.Ap || r.lhs || r.rhs || r.c || r.lbs || r.ubs || r.obj_offset != 0; }
        free_presolver(P);
    }});
    account(); no_exit(); count_status(o.status); sig_outcome(o);
    g_run.nontrivial = o.status != UNCHANGED || o.st[2] != o.st[5]; if (g_st.jumps_fired) g_ctr[K_CUTS]++;
    hash_bytes(&o.status, sizeof o.status); { std::string b = o.bytes(); hash_bytes(b.data(), b.size()); for (auto &t : sols) { hash_bytes(t.x.data(), t.x.size() * 8); hash_bytes(t.y.data(), t.y.size() * 8); hash_bytes(t.z.data(), t.z.size() * 8); } g_run.hash = mix(g_run.hash, g_st.hash); }
    if (id == "P01" || id == "P05") if (o.status != UNCHANGED && o.status != REDUCED && o.status != INFEASIBLE && o.status != UNBNDORINFEAS) return fail("bad-status", "undocumented status " + std::to_string(o.status));
    if (id == "P01") {
        if (o.status == INFEASIBLE && (orig.st == LP_OPT || orig.st == LP_UNBND) && well_posed(p, q)) return fail("false-infeasible", "the problem is feasible but was declared infeasible");
        if (o.status == UNBNDORINFEAS && orig.st == LP_OPT && well_posed(p, q) && cost_robust(p)) return fail("false-unbounded", "the problem has optimal value " + lpd(orig.obj) + " but was declared infeasible or unbounded");
        return false;
    }
    if (id == "P05") {
        auto bad = [&](const std::string &w) { return fail("malformed-reduced", w); };
        if (leftover) return fail("verdict-with-reduced", "a verdict was returned but the reduced problem is not empty");
        if (o.st[0] != (size_t)p.m || o.st[1] != (size_t)p.n || o.st[2] != p.nnz()) return fail("bad-stats", "original dimensions misreported");
        if (is_verdict(o.status)) return false;
        if (!wf) return bad(why);
        for (double v : o.Ax) if (!std::isfinite(v) || v == 0) return bad("coefficient is zero or not finite");
        for (double v : o.c) if (!std::isfinite(v)) return bad("cost is not finite");
        if (!std::isfinite(o.off)) return bad("offset is not finite");
        for (size_t i = 0; i < o.m; i++) { if (std::isnan(o.lhs[i]) || std::isnan(o.rhs[i]) || o.lhs[i] == INFINITY || o.rhs[i] == -INFINITY) return bad("row side is not a valid side"); if (o.lhs[i] > o.rhs[i] + 1e-6 * (1 + fabs(o.rhs[i]))) return bad("row sides cross"); }
        for (size_t j = 0; j < o.n; j++) { if (std::isnan(o.lbs[j]) || std::isnan(o.ubs[j]) || o.lbs[j] == INFINITY || o.ubs[j] == -INFINITY) return bad("bound is not a valid bound"); if (o.lbs[j] > o.ubs[j] + 1e-6 * (1 + fabs(o.ubs[j]))) return bad("bounds cross"); }
        if (o.m == 0 && o.n == 0) g_ctr[K_EMPTYRED]++;
        if (o.st[3] != o.m || o.st[4] != o.n || o.st[5] != o.nnz) return fail("bad-stats", "reduced dimensions in the statistics differ from the reduced problem");
        if (o.m > o.st[0] || o.n > o.st[1]) return fail("bad-stats", "the reduced problem has more rows or columns than the original");
        bool same = o.m == o.st[0] && o.n == o.st[1] && o.nnz == o.st[2];
        if (same != (o.status == UNCHANGED)) return fail("bad-status", same ? "status REDUCED although all dimensions are unchanged" : "status UNCHANGED although dimensions changed");
        return false;
    }
    if (is_verdict(o.status)) return false;
    if (id == "P18") {
        size_t sum = 0; for (int k = 6; k < 11; k++) sum += o.st[k]; if (o.st[2] - o.st[5] != sum) return fail("stats-do-not-add-up", "nonzeros went from " + std::to_string(o.st[2]) + " to " + std::to_string(o.st[5]) + " but the parts account for " + std::to_string((long long)sum));
        return false;
    }
    if (!wf) return id == "P20" ? fail("malformed-reduced", why) : false;
    if (id == "P19") {
        if (g_st.jumps_fired || s.cfg.ns_per_kstep || q.max_time < 1) return false; // cut by the limit
        LP r = to_lp(o); std::vector<int> cc(r.n, 0);
        for (int i = 0; i < r.m; i++) { int c = 0; for (int j = 0; j < r.n; j++) if (r.A[i][j] != 0) { c++; cc[j]++; } if (c == 0) return fail("leftover", "row " + std::to_string(i) + " of the reduced problem is empty"); if (c == 1) return fail("leftover", "row " + std::to_string(i) + " of the reduced problem has one entry"); if (r.lhs[i] == -INFINITY && r.rhs[i] == INFINITY) return fail("leftover", "row " + std::to_string(i) + " of the reduced problem has no finite side"); }
        for (int j = 0; j < r.n; j++) { if (!cc[j]) return fail("leftover", "column " + std::to_string(j) + " of the reduced problem is empty"); }
        return false;
    }
    if (arb) {
        if (id == "P16" && (orig.st == LP_UNSURE || (orig.st == LP_INFEAS && !infeasible_with_margin(p)))) return false; // no feasible point exists, by less than the tolerances
        g_run.nontrivial = g_run.nontrivial && !sols.empty();
        for (size_t k = 0; k < sols.size(); k++) {
            const Sol &t = sols[k]; std::string tag = " (reduced point " + std::to_string(k) + ")"; if (t.dx != (size_t)p.n || t.dy != (size_t)p.m) return fail("bad-dimensions", "solution dimensions differ from the original problem");
            std::vector<LD> x(t.x.begin(), t.x.end()), y(t.y.begin(), t.y.end());
            if (id == "P16") { for (LD v : x) if (!std::isfinite((double)v)) return fail("not-finite", "primal value not finite" + tag); const LD F = q.b[4] ? 1e-5L : 2e-6L, G = 8; LD ob = 0, osc = 1 + fabsl((LD)o.off), ro = o.off;
                for (int j = 0; j < p.n; j++) { LD d = std::max(p.lb[j] - x[j], x[j] - p.ub[j]), sc = 1 + fabsl(x[j] < p.lb[j] ? p.lb[j] : p.ub[j]); if (d > F * sc) return fail("bound-violated", "x[" + std::to_string(j) + "] = " + lpd(x[j]) + " outside [" + lpd(p.lb[j]) + ", " + lpd(p.ub[j]) + "]" + tag, d < G * sc); }
                for (int i = 0; i < p.m; i++) { LD a = 0, sc = 1; for (int j = 0; j < p.n; j++) { a += p.A[i][j] * x[j]; sc = std::max(sc, fabsl(p.A[i][j] * x[j])); } sc += fabsl(a < p.lhs[i] ? p.lhs[i] : p.rhs[i] < INFINITY ? p.rhs[i] : 0); LD d = std::max(p.lhs[i] - a, a - p.rhs[i]); if (d > F * sc) return fail("row-violated", "row " + std::to_string(i) + " activity " + lpd(a) + " outside [" + lpd(p.lhs[i]) + ", " + lpd(p.rhs[i]) + "]" + tag, d < G * sc); }
                for (int j = 0; j < p.n; j++) { ob += p.c[j] * x[j]; osc += fabsl(p.c[j] * x[j]); } for (int j = 0; j < rlp.n; j++) { ro += rlp.c[j] * given[k].x[j]; osc += fabsl(rlp.c[j] * given[k].x[j]); }
                LD d = fabsl(ob - ro); if (!(d <= 1e-6L * osc)) return fail("offset-mismatch", "objective of the recovered point " + lpd(ob) + ", of the reduced point " + lpd(ro) + tag, d < 1e-4L * osc);
            } else { for (double v : t.y) if (!std::isfinite(v)) return fail("not-finite", "dual value not finite" + tag); for (double v : t.z) if (!std::isfinite(v)) return fail("not-finite", "reduced cost not finite" + tag);
                for (int j = 0; j < p.n; j++) { LD zz = p.c[j], sc = 1 + fabsl(p.c[j]); for (int i = 0; i < p.m; i++) { zz -= p.A[i][j] * y[i]; sc = std::max(sc, fabsl(p.A[i][j] * y[i])); } if (fabsl(zz - t.z[j]) > 1e-6L * sc) return fail("stationarity", "z[" + std::to_string(j) + "] = " + lpd(t.z[j]) + " but c - A'y = " + lpd(zz) + tag); } }
        }
        return false;
    }
    if (id == "P20") {
        if (orig.st == LP_UNSURE) return false; bool wp = well_posed(p, q) && well_posed(p, q2), cr = cost_robust(p); sig_outcome(o2); if (!twice) return false;
        if (o2.status == INFEASIBLE && (orig.st == LP_OPT || orig.st == LP_UNBND) && wp) return fail("false-infeasible", "presolving the reduced problem declares it infeasible although the original is feasible");
        if (o2.status == UNBNDORINFEAS && orig.st == LP_OPT && wp && cr) return fail("false-unbounded", "presolving the reduced problem declares it unbounded or infeasible although the original has an optimum");
        if (is_verdict(o2.status) || red2.st == LP_UNSURE) return false;
        if (orig.st != red2.st && (red2.st != LP_INFEAS || wp) && (red2.st != LP_UNBND || cr) && (orig.st != LP_INFEAS || infeasible_with_margin(p))) return fail("not-equivalent", "status after presolving twice differs from the original's");
        if (orig.st == LP_OPT && red2.st == LP_OPT) { const Sol &t = sols[0]; LD vt = 2 * value_tol(p, orig), d = fabsl(orig.obj - red2.obj - o.off - o2.off), ob = 0; if (!(d <= vt)) return fail("value-differs", "original optimum " + lpd(orig.obj) + ", optimum + offsets after presolving twice " + lpd(red2.obj + o.off + o2.off), d < 100 * vt);
            const LD F = 2e-5L, G = 8; for (int j = 0; j < p.n; j++) { LD x = t.x[j]; if (!std::isfinite(t.x[j])) return fail("not-finite", "primal value not finite"); ob += p.c[j] * x; LD e = std::max(p.lb[j] - x, x - p.ub[j]), sc = 1 + fabsl(x < p.lb[j] ? p.lb[j] : p.ub[j]); if (e > F * sc) return fail("bound-violated", "x[" + std::to_string(j) + "] = " + lpd(x) + " outside its bounds after two presolves", e < G * sc); }
            for (int i = 0; i < p.m; i++) { LD a = 0, sc = 1; for (int j = 0; j < p.n; j++) { a += p.A[i][j] * (LD)t.x[j]; sc = std::max(sc, fabsl(p.A[i][j] * (LD)t.x[j])); } LD e = std::max(p.lhs[i] - a, a - p.rhs[i]); sc += fabsl(a < p.lhs[i] ? p.lhs[i] : p.rhs[i] < INFINITY ? p.rhs[i] : 0); if (e > F * sc) return fail("row-violated", "row " + std::to_string(i) + " violated after two presolves", e < G * sc); }
            d = fabsl(ob - orig.obj); if (!(d <= vt)) return fail("not-optimal", "objective recovered through two presolves " + lpd(ob) + ", optimum " + lpd(orig.obj), d < 100 * vt);
            for (int j = 0; j < p.n; j++) { LD zz = p.c[j], sc = 1 + fabsl(p.c[j]); for (int i = 0; i < p.m; i++) { if (!std::isfinite(t.y[i])) return fail("not-finite", "dual value not finite"); zz -= p.A[i][j] * (LD)t.y[i]; sc = std::max(sc, fabsl(p.A[i][j] * (LD)t.y[i])); } if (!(fabsl(zz - t.z[j]) <= 1e-6L * sc)) return fail("stationarity", "z[" + std::to_string(j) + "] differs from c - A'y after two presolves"); } }
        return false;
    }
    if (!wf) return id == "P02" ? fail("malformed-reduced", why) : false;
    if (orig.st == LP_UNSURE || red.st == LP_UNSURE) { if (orig.st != LP_UNSURE) g_ctr[K_SKIPPED]++; return false; }
    if (id == "P02") {
        if (orig.st != red.st && (red.st != LP_INFEAS || well_posed(p, q)) && (red.st != LP_UNBND || cost_robust(p)) && (orig.st != LP_INFEAS || infeasible_with_margin(p))) { static const char *nm[] = {"solvable", "infeasible", "unbounded"}; return fail("not-equivalent", std::string("original is ") + nm[orig.st] + " but reduced is " + nm[red.st]); }
        if (orig.st == LP_OPT && red.st == LP_OPT) { LD d = fabsl(orig.obj - (red.obj + o.off)), t = value_tol(p, orig); if (!(d <= t)) return fail("value-differs", "original optimum " + lpd(orig.obj) + ", reduced optimum + offset " + lpd(red.obj + o.off), d < 100 * t); }
        return false;
    }
    if (orig.st != LP_OPT || red.st != LP_OPT) return false;
    g_run.nontrivial = g_run.nontrivial && !sols.empty();
    for (size_t k = 0; k < sols.size(); k++) {
        const Sol &t = sols[k]; std::string tag = " (reduced solution " + std::to_string(k) + ")";
        if (t.dx != (size_t)p.n || t.dy != (size_t)p.m) return fail("bad-dimensions", "solution dimensions differ from the original problem");
        for (double v : t.x) if (!std::isfinite(v)) return fail("not-finite", "primal value not finite" + tag);
        std::vector<LD> x(t.x.begin(), t.x.end()), y(t.y.begin(), t.y.end());
        LD obj = 0; for (int j = 0; j < p.n; j++) obj += p.c[j] * x[j]; LD xm = 0; for (LD v : x) xm = std::max(xm, fabsl(v));
        if (id == "P21") { // an answer that was off by e must come back off by little more than e, times what the coefficients amplify
            static LD perr[4], derr[4]; static std::string pmsg[4], dmsg[4]; static const char *pkind; LD e = g_noise[k], F = 1e-4L + 1e5L * e; std::string at = " (reduced solution off by " + lpd(e) + ")"; if (!k) pkind = nullptr; perr[k] = derr[k] = 0; pmsg[k] = dmsg[k] = "";
            auto worse = [&](const char *kind, LD v, const std::string &m) { if (v > perr[k]) { perr[k] = v; pmsg[k] = m + at; pkind = kind; } };
            for (double v : t.y) if (!std::isfinite(v)) return fail("not-finite", "dual value not finite" + at); for (double v : t.z) if (!std::isfinite(v)) return fail("not-finite", "reduced cost not finite" + at);
            for (int j = 0; j < p.n; j++) { LD d = std::max(p.lb[j] - x[j], x[j] - p.ub[j]), sc = 1 + fabsl(x[j] < p.lb[j] ? p.lb[j] : p.ub[j]); if (d > F * sc) worse("bound-violated", d / sc, "x[" + std::to_string(j) + "] = " + lpd(x[j]) + " outside [" + lpd(p.lb[j]) + ", " + lpd(p.ub[j]) + "]"); }
            for (int i = 0; i < p.m; i++) { LD a = 0, sc = 1; for (int j = 0; j < p.n; j++) { a += p.A[i][j] * x[j]; sc = std::max(sc, fabsl(p.A[i][j] * x[j])); } sc += fabsl(a < p.lhs[i] ? p.lhs[i] : p.rhs[i] < INFINITY ? p.rhs[i] : 0); LD d = std::max(p.lhs[i] - a, a - p.rhs[i]); if (d > F * sc) worse("row-violated", d / sc, "row " + std::to_string(i) + " activity " + lpd(a) + " outside [" + lpd(p.lhs[i]) + ", " + lpd(p.rhs[i]) + "]"); }
            LD vt = value_tol(p, orig), os = 1; for (int j = 0; j < p.n; j++) os += fabsl(p.c[j] * x[j]); vt += F * os; LD d = fabsl(obj - orig.obj); if (d > vt) worse("not-optimal", d, "recovered objective " + lpd(obj) + ", optimum " + lpd(orig.obj));
            for (int j = 0; j < p.n; j++) { LD zz = p.c[j], sc = 1 + fabsl(p.c[j]); for (int i = 0; i < p.m; i++) { zz -= p.A[i][j] * y[i]; sc = std::max(sc, fabsl(p.A[i][j] * y[i])); } if (fabsl(zz - t.z[j]) > 1e-6L * sc) return fail("stationarity", "z[" + std::to_string(j) + "] = " + lpd(t.z[j]) + " but c - A'y = " + lpd(zz) + at); }
            // dual decisions look at which bounds and sides hold with equality, within the feasibility tolerance of 1e-6: they must be right when the recovered point is well within it
            LD dev = 0, rn = 1; for (int j = 0; j < p.n; j++) dev = std::max(dev, fabsl(x[j] - orig.x[j])); for (int i = 0; i < p.m; i++) { LD w = 0; for (int j = 0; j < p.n; j++) w += fabs(p.A[i][j]); rn = std::max(rn, w); }
            if (orig.unique && dev * rn < 2e-7L) { g_ctr[K_UNIQUE]++; for (int i = 0; i < p.m; i++) { LD v = fabsl(orig.y[i] - y[i]) / (1 + fabsl(orig.y[i])); if (v > derr[k]) { derr[k] = v; if (v > F) dmsg[k] = "the dual solution is unique but y[" + std::to_string(i) + "] = " + lpd(y[i]) + " instead of " + lpd(orig.y[i]) + at; } } }
            if (k == 3) { // errors that shrink with the inaccuracy are amplification; errors that stay, or that appear from nowhere in the duals, are wrong decisions
                if (perr[0] > 0 && perr[1] > 0 && perr[2] > 0 && perr[3] > 0) return fail(pkind, pmsg[3], perr[3] < 8);
                if (!dmsg[3].empty()) return fail("not-dual-optimal", dmsg[3]);
                for (int a = 0; a < 3; a++) if (!dmsg[a].empty() && derr[a] > 1e-4L + 1e3L * derr[a + 1]) return fail("not-dual-optimal", dmsg[a]); }
        } else if (id == "P03") {
            const LD F = q.b[4] ? 1e-5L : 2e-6L, G = 8;
            for (int j = 0; j < p.n; j++) { LD d = std::max(p.lb[j] - x[j], x[j] - p.ub[j]), sc = 1 + fabsl(x[j] < p.lb[j] ? p.lb[j] : p.ub[j]); if (d > F * sc) return fail("bound-violated", "x[" + std::to_string(j) + "] = " + lpd(x[j]) + " outside [" + lpd(p.lb[j]) + ", " + lpd(p.ub[j]) + "]" + tag, d < G * sc); }
            for (int i = 0; i < p.m; i++) { LD a = 0, sc = 1; for (int j = 0; j < p.n; j++) { a += p.A[i][j] * x[j]; sc = std::max(sc, fabsl(p.A[i][j] * x[j])); } sc += fabsl(a < p.lhs[i] ? p.lhs[i] : p.rhs[i] < INFINITY ? p.rhs[i] : 0); LD d = std::max(p.lhs[i] - a, a - p.rhs[i]); if (d > F * sc) return fail("row-violated", "row " + std::to_string(i) + " activity " + lpd(a) + " outside [" + lpd(p.lhs[i]) + ", " + lpd(p.rhs[i]) + "]" + tag, d < G * sc); }
            LD vt = value_tol(p, orig), d = fabsl(obj - orig.obj); if (d > vt) return fail("not-optimal", "recovered objective " + lpd(obj) + ", optimum " + lpd(orig.obj) + tag, d < 100 * vt);
            LD robj = 0; for (int j = 0; j < rlp.n; j++) robj += rlp.c[j] * given[k].x[j]; d = fabsl(obj - robj - o.off); if (d > vt) return fail("offset-mismatch", "recovered objective " + lpd(obj) + ", reduced objective + offset " + lpd(robj + o.off) + tag, d < 100 * vt);
        } else {
            for (double v : t.y) if (!std::isfinite(v)) return fail("not-finite", "dual value not finite" + tag);
            for (double v : t.z) if (!std::isfinite(v)) return fail("not-finite", "reduced cost not finite" + tag);
            for (int j = 0; j < p.n; j++) { LD zz = p.c[j], sc = 1 + fabsl(p.c[j]); for (int i = 0; i < p.m; i++) { zz -= p.A[i][j] * y[i]; sc = std::max(sc, fabsl(p.A[i][j] * y[i])); } if (fabsl(zz - t.z[j]) > 1e-6L * sc) return fail("stationarity", "z[" + std::to_string(j) + "] = " + lpd(t.z[j]) + " but c - A'y = " + lpd(zz) + tag); }
            if (orig.unique || s.args[2]) { g_ctr[K_UNIQUE]++; g_ctr[K_PROBE7]++; LD e = lp_pair_error(p, x, y), dev = 0; for (int j = 0; j < p.n; j++) dev = std::max(dev, fabsl(x[j] - orig.x[j]));
                LD rn = 1; for (int i = 0; i < p.m; i++) { LD w = 0; for (int j = 0; j < p.n; j++) w += fabs(p.A[i][j]); rn = std::max(rn, w); } bool soft = orig.unique && dev * rn > 1e-7L && dev < 8; // the dual decisions look at which bounds are active, within the tolerance
                if (!(e < 1e-5L)) return fail("not-dual-optimal", "recovered pair violates the optimality conditions by " + lpd(e) + tag, soft);
                if (orig.unique) for (int i = 0; i < p.m; i++) { if (fabsl(orig.y[i] - y[i]) > 1e-5L * (1 + fabsl(orig.y[i]))) return fail("not-dual-optimal", "the dual solution is unique but y[" + std::to_string(i) + "] = " + lpd(y[i]) + " instead of " + lpd(orig.y[i]) + tag, soft); } }
        }
    }
    return false;
}
static void run_semantic(const Scenario &s) {
    Fail f; if (!semantic_once(s, s.lps[0], f)) return;
    if (f.soft) for (double k : {1.0 / 16, 1.0 / 64, 1.0 / 256, 64.0}) { LP p = s.lps[0]; for (int i = 0; i < p.m; i++) { p.lhs[i] *= k; p.rhs[i] *= k; } for (int j = 0; j < p.n; j++) { p.lb[j] *= k; p.ub[j] *= k; } Fail g; g_ctr[K_RESCALED]++; if (!semantic_once(s, p, g) || g.kind != f.kind) return; }
    violation(f.kind, f.msg);
}

// ------------------------------------------------------------------ comparisons
static void same(const Outcome &a, const Outcome &b, const std::string &what) {
    g_ctr[K_PROBE6]++;
    if (a.null != b.null) violation("differs", what + ": creation " + (b.null ? "failed" : "succeeded"));
    if (a.status != b.status) violation("differs", what + ": status " + std::to_string(b.status) + " instead of " + std::to_string(a.status));
    if (a.bytes() != b.bytes()) {
        std::string d = "outputs differ"; if (a.m != b.m || a.n != b.n || a.nnz != b.nnz) d = "reduced dimensions differ"; else if (a.Ax != b.Ax || a.Ai != b.Ai || a.Ap != b.Ap) d = "reduced matrix differs"; else if (a.lhs != b.lhs || a.rhs != b.rhs) d = "reduced sides differ"; else if (a.lbs != b.lbs || a.ubs != b.ubs) d = "reduced bounds differ"; else if (a.c != b.c || a.off != b.off) d = "reduced cost or offset differs"; else if (memcmp(a.st, b.st, sizeof a.st)) d = "statistics differ";
        else for (size_t k = 0; k < a.sols.size() && k < b.sols.size(); k++) if (a.sols[k].x != b.sols[k].x || a.sols[k].y != b.sols[k].y || a.sols[k].z != b.sols[k].z) d = "postsolved solution " + std::to_string(k) + " differs";
        violation("differs", what + ": " + d); }
}
static void ledger(const std::string &when) {
    if (sim_live_threads()) violation("thread-leak", "a helper thread is still there " + when);
    if (sim_live_blocks()) violation("leak", std::to_string(sim_live_blocks()) + " blocks not released " + when + ":" + sim_live_desc());
}
// ------------------------------------------------------------------ P06 / P13: creation under faults
static void run_creation_faults(const Scenario &s) {
    const LP &p = s.lps[0]; const SetSpec &q = s.sets[0]; Outcome ref = reference(s, p, q, 1, s.seed);
    bool conc = s.lps.size() > 1; Outcome ref2, other; if (conc) ref2 = reference(s, s.lps[1], q, 1, mix(s.seed, 7)); // somebody else uses a presolver meanwhile
    // how many requests does creation make?
    int64_t nreq = 0; { SimCfg c = ref_cfg(s.cfg); sim_begin(c); Inputs in = make_inputs(p); Settings *st = user_settings(q); sim_run({[&] { sim_arm(true); if (s.args[1]) { Settings *d = default_settings(); free_settings(d); } Presolver *P = create(in, st); sim_arm(false); nreq = sim_alloc_count(); free_presolver(P); }}); account(); }
    SimCfg c = s.cfg; bool alloc = s.args[0] >= 0; c.fail_at = alloc ? s.args[0] % std::max<int64_t>(1, nreq) : -1;
    Outcome second; bool null1 = false, dnull = false, dtried = false; uint64_t fired = 0, tfired = 0; Outcome first;
    sim_begin(c); Inputs in = make_inputs(p); Settings *st = user_settings(q); Inputs in2; if (conc) in2 = make_inputs(s.lps[1]);
    std::vector<std::function<void()>> tasks{[&] {
        sim_arm(true);
        if (s.args[1]) { dtried = true; uint64_t f0 = g_st.alloc_fail; Settings *d = default_settings(); dnull = d == nullptr; if (dnull != (g_st.alloc_fail > f0)) violation("null-contract", dnull ? "default settings are NULL although no request failed" : "default settings are not NULL although a request failed"); free_settings(d); }
        uint64_t f1 = g_st.alloc_fail; Presolver *P = create(in, st); sim_arm(false); fired = g_st.alloc_fail - f1; tfired = g_st.thread_fail; null1 = P == nullptr;
        if (fired && P) violation("null-contract", "creation did not return NULL although a memory request failed");
        if (!fired && !tfired && !P) violation("null-contract", "creation returned NULL although nothing failed");
        if (!P && conc) {}
        else if (!P) { if (sim_live_threads()) violation("thread-leak", "a helper thread is still running after creation failed"); if (sim_live_blocks()) violation("leak", std::to_string(sim_live_blocks()) + " blocks lost by failed creation:" + sim_live_desc()); }
        else { if (!conc && sim_live_threads()) violation("thread-leak", "a helper thread is still running after creation");
            first.status = run_presolver(P); capture_stats(P, first); if (!is_verdict(first.status)) { capture_reduced(P, first); PostReq r = arb_post(first.n, first.m, mix(s.seed, 0)); first.sols.push_back(call_post(P, r.x, r.y, r.z)); } free_presolver(P); }
        second = life(in, st, 1, s.seed);
    }};
    if (conc) tasks.push_back([&] { other = life(in2, st, 1, mix(s.seed, 7)); }); sim_run(tasks);
    account(); no_exit(); ledger("at the end"); g_ctr[K_PROBE5] += fired; if (null1) g_ctr[K_NULLS]++;
    g_run.nontrivial = fired || tfired || (dtried && dnull); sigadd(fired ? (uint64_t)c.fail_at + 1 : 0); sigadd(tfired); sigadd(null1); sig_outcome(second);
    if (!null1) same(ref, first, "presolver created while a fault was injected");
    if (!(second.null && g_st.thread_fail > tfired)) same(ref, second, "creation after a failed creation");
    if (conc && !(other.null && g_st.thread_fail)) same(ref2, other, "presolver used by another thread while creation failed");
}
// ------------------------------------------------------------------ P07: determinism
static void run_determinism(const Scenario &s) {
    const LP &p = s.lps[0]; const SetSpec &q = s.sets[0]; int np = 2; Outcome ref = reference(s, p, q, np, s.seed);
    for (int v = 0; v < (int)s.args[0]; v++) {
        SimCfg c = s.cfg; if (v) { Rng r(mix(s.seed, 0xD0 + v)); c.rseed = mix(c.rseed, v); c.fill = (c.fill + v) % FILL_NMODES; c.pad = r.range(0, 1023); if (c.strat != ST_TRACE) { c.strat = r.range(0, 3); c.gap = 1 << r.range(0, 8); c.pct_d = r.range(1, 4); } }
        if (q.max_time >= 1e9) { Rng r(mix(s.seed, 0xC10C + v)); c.tick_ns = (int64_t)r.below((uint64_t)pow(10, r.range(3, 9))); if (r.chance(0.3)) c.ns_per_kstep = (int64_t)r.below(1000000000); if (r.chance(0.5)) for (int k = r.range(1, 3); k > 0; k--) c.jumps.push_back({r.range(0, r.chance(0.5) ? 10 : 60), (int64_t)r.below(200000000000LL)}); } // a clock of another pace, which stalls, while the limit is far away
        Outcome o; sim_begin(c); Inputs in = make_inputs(p); Settings *st = user_settings(q); sim_run({[&] { o = life(in, st, np, s.seed); }}); account(); no_exit();
        same(ref, o, "execution variant " + std::to_string(v) + " (schedule, heap contents, addresses, clock pace)"); if (g_st.switches > 2) g_run.nontrivial = true;
    }
    sig_outcome(ref);
}
// ------------------------------------------------------------------ P08: concurrent presolvers
static void run_concurrent(const Scenario &s) {
    size_t K = s.lps.size(); std::vector<Outcome> ref(K), got(K); int np = 1; for (size_t k = 0; k < K; k++) ref[k] = reference(s, s.lps[k], s.sets[k % s.sets.size()], np, mix(s.seed, k));
    bool share = s.args[1];
    sim_begin(s.cfg); std::vector<Inputs> in; std::vector<Settings *> st; for (size_t k = 0; k < K; k++) { if (share && k && s.lps[k] == s.lps[0]) in.push_back(in[0]); else in.push_back(make_inputs(s.lps[k])); if (s.sets.size() == 1 && k) st.push_back(st[0]); else st.push_back(user_settings(s.sets[k % s.sets.size()])); }
    if (s.args[0] == 0) {
        std::vector<std::function<void()>> t; for (size_t k = 0; k < K; k++) t.push_back([&, k] { got[k] = life(in[k], st[k], np, mix(s.seed, k)); }); sim_run(t);
    } else { // one caller thread interleaving calls on several presolvers
        g_ctr[K_PROBE2]++; sim_run({[&] { Rng r(mix(s.seed, 0x1E)); std::vector<int> stage(K, 0); std::vector<Presolver *> P(K, nullptr); size_t done = 0;
            while (done < K) { size_t k = r.below(K); if (stage[k] == 4) continue;
                switch (stage[k]) { case 0: P[k] = create(in[k], st[k]); if (!P[k]) violation("creation-failed", "creation returned NULL although nothing failed"); stage[k] = 1; break;
                    case 1: got[k].status = run_presolver(P[k]); capture_stats(P[k], got[k]); if (is_verdict(got[k].status)) stage[k] = 3; else { capture_reduced(P[k], got[k]); stage[k] = 2; } break;
                    case 2: { PostReq q = arb_post(got[k].n, got[k].m, mix(mix(s.seed, k), 0)); got[k].sols.push_back(call_post(P[k], q.x, q.y, q.z)); stage[k] = 3; break; }
                    case 3: free_presolver(P[k]); stage[k] = 4; done++; break; } } }});
    }
    account(); no_exit(); g_run.nontrivial = g_st.switches > 4 || s.args[0];
    for (size_t k = 0; k < K; k++) { sig_outcome(got[k]); same(ref[k], got[k], "presolver " + std::to_string(k) + " used together with others"); }
    ledger("after all presolvers were freed");
}
// ------------------------------------------------------------------ P09: caller data isolation
static void run_isolation(const Scenario &s) {
    const LP &p = s.lps[0]; const SetSpec &q = s.sets[0]; int np = 1; Outcome ref = reference(s, p, q, np, s.seed), o; int mode = (int)s.args[0];
    sim_begin(s.cfg); Inputs in = make_inputs(p); Settings *st = user_settings(q); std::vector<std::vector<char>> snap;
    sim_run({[&] {
        Presolver *P = create(in, st); if (!P) violation("creation-failed", "creation returned NULL although nothing failed");
        if (sim_live_threads()) violation("thread-leak", "a helper thread is still running after creation");
        Rng r(mix(s.seed, 0x15));
        for (size_t k = 0; k < in.all.size(); k++) { int how = mode == 3 ? (int)r.below(3) : mode; if (how == 0) { user_release(in.all[k]); g_ctr[K_PROBE0]++; } else if (how == 1) { user_scribble(in.all[k], (int)r.below(256)); g_ctr[K_PROBE1]++; } }
        o.status = run_presolver(P); capture_stats(P, o);
        if (!is_verdict(o.status)) { capture_reduced(P, o); PostReq t = arb_post(o.n, o.m, mix(s.seed, 0)); o.sols.push_back(call_post(P, t.x, t.y, t.z)); }
        free_presolver(P);
    }});
    account(); no_exit(); sig_outcome(o); g_run.nontrivial = true; same(ref, o, "run after the caller changed or released its arrays");
}
// ------------------------------------------------------------------ P10: clock
static void run_clock(const Scenario &s) {
    const LP &p = s.lps[0]; const SetSpec &q = s.sets[0]; Outcome o, full; uint64_t kfull = 0;
    { SetSpec u = q; u.max_time = INFINITY; SimCfg c = ref_cfg(s.cfg); c.tick_ns = 0; c.max_steps = s.cfg.max_steps; sim_begin(c); Inputs in = make_inputs(p); Settings *st = user_settings(u); sim_run({[&] { full = life(in, st, 0, 0); }}); account(); no_exit(); kfull = g_st.clock_reads; }
    LpSol red; LP rlp; size_t r0 = 0, r1 = 0, ps0 = 0, ps1 = 0, ps2 = 0, ps3 = 0, c1 = 0; double tm7b = 0; Sol sol; bool posted = false; std::string out; bool wf = true;
    sim_begin(s.cfg); Inputs in = make_inputs(p); Settings *st = user_settings(q); LpSol orig = lp_solve(p);
    sim_run({[&] {
        Presolver *P = create(in, st); c1 = g_reads.size(); if (!P) violation("creation-failed", "creation returned NULL although nothing failed"); r0 = g_reads.size();
        o.status = run_presolver(P); r1 = g_reads.size(); capture_stats(P, o); out = g_out;
        if (!is_verdict(o.status)) { capture_reduced(P, o); wf = shape_ok(o); if (wf) { rlp = to_lp(o); red = lp_solve(rlp); if (red.st == LP_OPT) { ps0 = g_reads.size(); sol = call_post(P, dv(red.x), dv(red.y), dv(red.z)); ps1 = g_reads.size(); posted = true; Outcome t; capture_stats(P, t); o.tm[7] = t.tm[7]; ps2 = g_reads.size(); call_post(P, dv(red.x), dv(red.y), dv(red.z)); ps3 = g_reads.size(); capture_stats(P, t); tm7b = t.tm[7]; } } }
        free_presolver(P);
    }});
    account(); no_exit(); sig_outcome(o); count_status(o.status); sigadd(r1 - r0);
    auto T = [&](size_t i) { return g_reads[i]; }; double sl = 1e-7;
    // progress after expiry
    if (r1 > r0) { int64_t t0 = T(r0), lim_ns = q.max_time > 1e9 ? INT64_MAX : (int64_t)ceil(q.max_time * 1e9); size_t exp = r1; for (size_t i = r0; i < r1; i++) if (lim_ns != INT64_MAX && T(i) - t0 > lim_ns + 1000) { exp = i; break; }
        if (exp < r1) { g_ctr[K_CUTS]++; size_t after = r1 - exp - 1; bool cut = kfull > 0 && r1 - r0 < kfull - c1; if (cut) g_run.nontrivial = true; sigadd(after);
            if (after > 10) violation("limit-ignored", "presolving read the clock " + std::to_string(after) + " more times after the limit had passed: passes were started after expiry"); }
        else { // limit never seen as passed: result must be complete
            bool near = false; if (lim_ns != INT64_MAX) for (size_t i = r0; i < r1; i++) if (T(i) - t0 > lim_ns - 1000) near = true;
            if (!near) { Outcome a = full, b = o; b.sols.clear(); a.sols.clear(); if (a.bytes() != b.bytes()) violation("cut-too-early", "the limit had not passed but the result differs from the unlimited run"); } }
    }
    // durations
    for (int i = 0; i < 8; i++) if (!(o.tm[i] >= -sl) || !std::isfinite(o.tm[i])) violation("bad-duration", "duration " + std::to_string(i) + " is negative or not finite");
    auto sec = [&](size_t a, size_t b) { return (double)(T(b) - T(a)) * 1e-9; };
    if (c1 >= 2 && fabs(o.tm[0] - sec(0, c1 - 1)) > sl * (1 + o.tm[0])) violation("bad-duration", "reported creation time differs from the clock");
    if (!is_verdict(o.status)) { if (r1 - r0 >= 2 && fabs(o.tm[6] - sec(r0, r1 - 1)) > sl * (1 + o.tm[6])) violation("bad-duration", "reported presolve time differs from the clock"); double tot = o.tm[6]; if (o.tm[1] + o.tm[2] > tot + sl * (1 + tot) || o.tm[3] + o.tm[4] + o.tm[5] > o.tm[2] + sl * (1 + o.tm[2])) violation("bad-duration", "parts take longer than the whole"); }
    if (posted && ps1 - ps0 >= 2 && fabs(o.tm[7] - sec(ps0, ps1 - 1)) > sl * (1 + o.tm[7])) violation("bad-duration", "reported postsolve time differs from the clock");
    if (posted && ps3 - ps2 >= 2 && !(fabs(tm7b - sec(ps2, ps3 - 1)) <= sl * (1 + fabs(tm7b)))) violation("bad-duration", "the reported time of a second postsolve differs from the clock");
    // validity of what was returned
    if (s.args[0]) return; // magnitudes beyond the ordinary range: only progress, memory and clock are judged
    if (o.status == INFEASIBLE && (orig.st == LP_OPT || orig.st == LP_UNBND) && well_posed(p, q)) violation("invalid-result", "false verdict");
    if (o.status == UNBNDORINFEAS && orig.st == LP_OPT && well_posed(p, q) && cost_robust(p)) violation("invalid-result", "false verdict");
    if (!is_verdict(o.status)) { if (!wf) violation("invalid-result", "malformed reduced problem"); if (orig.st != LP_UNSURE && red.st != LP_UNSURE) { if (orig.st != red.st && (red.st != LP_INFEAS || well_posed(p, q)) && (red.st != LP_UNBND || cost_robust(p)) && (orig.st != LP_INFEAS || infeasible_with_margin(p))) violation("invalid-result", "reduced problem not equivalent after the cut"); if (orig.st == LP_OPT && red.st == LP_OPT) { LD vt = 100 * value_tol(p, orig); /* finer deviations are P02 and P03 */ if (fabsl(orig.obj - red.obj - o.off) > vt) violation("invalid-result", "optimal value differs after the cut"); LD ob = 0; for (int j = 0; j < p.n; j++) ob += p.c[j] * (LD)sol.x[j]; if (posted && fabsl(ob - orig.obj) > vt) violation("invalid-result", "postsolved objective differs after the cut"); } } }
}
// ------------------------------------------------------------------ P11: postsolve histories
static void run_posthist(const Scenario &s) {
    size_t K = s.lps.size(); std::vector<std::vector<PostReq>> req(K); std::vector<int> st0(K);
    // reference: every request answered by a presolver that never answered another
    std::vector<std::vector<Sol>> want(K); int np = (int)s.args[0];
    std::vector<Outcome> base(K);
    for (size_t k = 0; k < K; k++) { base[k] = reference(s, s.lps[k], s.sets[0], 0, 0); if (is_verdict(base[k].status)) continue; LpSol red; if (shape_ok(base[k])) red = lp_solve(to_lp(base[k]));
        for (int i = 0; i < np; i++) { Rng r(mix(s.seed, k * 100 + i)); PostReq q; if (red.st == LP_OPT && r.chance(0.5)) { LpSol a = lp_alternative(to_lp(base[k]), red, r, (int)r.below(8)); q = {dv(a.x), dv(a.y), dv(a.z)}; } else q = arb_post(base[k].n, base[k].m, r.next()); if (i && r.chance(0.3)) q = req[k][r.below(i)]; req[k].push_back(q);
            SimCfg c = ref_cfg(s.cfg); sim_begin(c); Inputs in = make_inputs(s.lps[k]); Settings *st = user_settings(s.sets[0]); Sol w; sim_run({[&] { Presolver *P = create(in, st); run_presolver(P); w = call_post(P, q.x, q.y, q.z); free_presolver(P); }}); account(); want[k].push_back(w); } }
    sim_begin(s.cfg); std::vector<Inputs> in; for (auto &p : s.lps) in.push_back(make_inputs(p)); Settings *st = user_settings(s.sets[0]);
    sim_run({[&] { std::vector<Presolver *> P(K); for (size_t k = 0; k < K; k++) { P[k] = create(in[k], st); if (!P[k]) violation("creation-failed", "creation returned NULL although nothing failed"); }
        std::vector<Outcome> o(K); for (size_t k = 0; k < K; k++) { o[k].status = run_presolver(P[k]); capture_stats(P[k], o[k]); if (!is_verdict(o[k].status)) capture_reduced(P[k], o[k]); }
        Rng r(mix(s.seed, 0x61)); int steps = np * (int)K * 2; for (int t = 0; t < steps; t++) { size_t k = r.below(K); if (req[k].empty()) continue; size_t i = r.below(req[k].size()); const PostReq &q = req[k][i]; Sol w = call_post(P[k], q.x, q.y, q.z); g_run.nontrivial = true;
            if (w.dx != want[k][i].dx || w.dy != want[k][i].dy || memcmp(w.x.data(), want[k][i].x.data(), w.x.size() * 8) || memcmp(w.y.data(), want[k][i].y.data(), w.y.size() * 8) || memcmp(w.z.data(), want[k][i].z.data(), w.z.size() * 8)) violation("history-dependent", "postsolve call " + std::to_string(t) + " gives a different answer than a fresh presolver");
            Outcome c2; c2.status = o[k].status; capture_stats(P[k], c2); capture_reduced(P[k], c2); g_ctr[K_PROBE6]++; if (c2.bytes() != o[k].bytes()) violation("reduced-modified", "postsolve changed the reduced problem or the statistics"); }
        for (size_t k = 0; k < K; k++) free_presolver(P[k]); }});
    account(); no_exit(); for (auto &b : base) sig_outcome(b);
}
// ------------------------------------------------------------------ P12: lifecycles
static void run_lifecycle(const Scenario &s) {
    size_t K = s.lps.size(); std::vector<Outcome> o1(K);
    for (int v = 0; v < 2; v++) {
        std::vector<Outcome> o(K); SimCfg c = s.cfg; if (v) { c.fill = (c.fill + 1 + (int)(s.seed & 1)) % FILL_NMODES; c.pad = (c.pad + 17) & 1023; }
        sim_begin(c); std::vector<Inputs> in; for (auto &p : s.lps) in.push_back(make_inputs(p));
        sim_run({[&] {
            Rng r(mix(s.seed, 0x12)); free_presolver(nullptr); free_settings(nullptr); std::vector<Settings *> st(K); for (size_t k = 0; k < K; k++) { st[k] = default_settings(); if (!st[k]) violation("creation-failed", "default settings failed"); fill_settings(st[k], s.sets[k % s.sets.size()]); }
            std::vector<Presolver *> P(K, nullptr); std::vector<int> stage(K, 0), posts(K, 0); size_t done = 0; std::vector<int> quit(K); for (auto &x : quit) x = r.chance(0.25) ? 1 : r.chance(0.3) ? 2 : 9;
            while (done < K) { size_t k = r.below(K); if (stage[k] == 9) continue;
                if (stage[k] == 0) { P[k] = create(in[k], st[k]); if (!P[k]) violation("creation-failed", "creation returned NULL although nothing failed"); stage[k] = quit[k] == 1 ? 8 : 1; }
                else if (stage[k] == 1) { o[k].status = run_presolver(P[k]); capture_stats(P[k], o[k]); if (!is_verdict(o[k].status)) { capture_reduced(P[k], o[k]); stage[k] = quit[k] == 2 ? 8 : 2; } else stage[k] = 8; }
                else if (stage[k] == 2) { PostReq q = arb_post(o[k].n, o[k].m, mix(mix(s.seed, k), (uint64_t)posts[k])); o[k].sols.push_back(call_post(P[k], q.x, q.y, q.z)); posts[k]++; if (posts[k] >= 3 || r.chance(0.5)) stage[k] = 8; }
                else { free_presolver(P[k]); stage[k] = 9; done++; if (r.chance(0.5)) { free_settings(st[k]); st[k] = nullptr; } } }
            for (size_t k = 0; k < K; k++) if (st[k]) free_settings(st[k]);
        }});
        account(); no_exit(); ledger("after everything was freed"); g_run.nontrivial = true;
        if (v == 0) { o1 = o; for (auto &x : o1) { sig_outcome(x); count_status(x.status); } } else for (size_t k = 0; k < K; k++) same(o1[k], o[k], "same history with other previous contents of memory");
    }
}
// ------------------------------------------------------------------ P14: allocation failure after creation
static void run_late_oom(const Scenario &s) {
    const LP &p = s.lps[0]; const SetSpec &q = s.sets[0]; int np = 2; Outcome ref; int64_t nrun = 0, nall = 0;
    { SimCfg c = ref_cfg(s.cfg); c.jumps = s.cfg.jumps; sim_begin(c); Inputs in = make_inputs(p); Settings *st = user_settings(q); sim_run({[&] { Presolver *P = create(in, st); sim_arm(true); ref.status = run_presolver(P); nrun = sim_alloc_count(); capture_stats(P, ref); if (!is_verdict(ref.status)) { capture_reduced(P, ref); for (int k = 0; k < np; k++) { PostReq t = arb_post(ref.n, ref.m, mix(s.seed, k)); ref.sols.push_back(call_post(P, t.x, t.y, t.z)); } } nall = sim_alloc_count(); sim_arm(false); free_presolver(P); }}); account(); no_exit(); }
    if (!nall) return; bool conc = s.lps.size() > 1; Outcome ref2, other; if (conc) ref2 = reference(s, s.lps[1], q, 1, mix(s.seed, 7));
    SimCfg c = s.cfg; c.fail_at = s.args[0] % nall; Outcome o; int where = 0;
    sim_begin(c); Inputs in = make_inputs(p); Settings *st = user_settings(q); Inputs in2; if (conc) in2 = make_inputs(s.lps[1]);
    std::vector<std::function<void()>> tasks{[&] { Presolver *P = create(in, st); if (!P) violation("creation-failed", "creation returned NULL although nothing failed"); sim_arm(true); where = 1; o.status = run_presolver(P); capture_stats(P, o); if (!is_verdict(o.status)) { capture_reduced(P, o); where = 2; for (int k = 0; k < np; k++) { PostReq t = arb_post(o.n, o.m, mix(s.seed, k)); o.sols.push_back(call_post(P, t.x, t.y, t.z)); } } sim_arm(false); free_presolver(P); where = 3; }};
    if (conc) tasks.push_back([&] { other = life(in2, st, 1, mix(s.seed, 7)); }); sim_run(tasks);
    account(); if (!g_st.alloc_fail) { no_exit(); return; }
    g_run.nontrivial = true; g_ctr[where == 1 ? K_PROBE3 : K_PROBE4]++; sigadd((uint64_t)c.fail_at); sigadd((uint64_t)where); sigadd(sim_exited()); sig_outcome(ref);
    if (sim_exited()) { if (sim_exit_code() == 0) violation("silent-exit", "the process ended with a success code after running out of memory"); if (g_err.empty()) violation("silent-exit", "the process ended without an error message after running out of memory"); return; }
    same(ref, o, "run that continued after a failed memory request"); if (conc) same(ref2, other, "presolver used by another thread while memory ran out");
}
// ------------------------------------------------------------------ P15: settings
struct TrivRef { bool infeas = false; size_t m, n, nnz; };
static TrivRef trivial_fixpoint(const LP &p) { // largest set of rows/columns trivial reductions may remove
    LP q = p; std::vector<bool> R(p.m, true), Cc(p.n, true); TrivRef t; bool go = true;
    while (go) { go = false;
        for (int j = 0; j < p.n; j++) if (Cc[j]) { bool any = false; for (int i = 0; i < p.m; i++) if (R[i] && q.A[i][j] != 0) any = true; if (!any || fabs(q.ub[j] - q.lb[j]) < 1e-5) { Cc[j] = false; go = true; } }
        for (int i = 0; i < p.m; i++) if (R[i]) { int cnt = 0, jj = -1; for (int j = 0; j < p.n; j++) if (Cc[j] && q.A[i][j] != 0) { cnt++; jj = j; } if (cnt == 0 || (!std::isfinite(q.lhs[i]) && !std::isfinite(q.rhs[i]))) { R[i] = false; go = true; } else if (cnt == 1) { R[i] = false; go = true; // tighten, with fixed columns substituted loosely: only equality or touching bounds fix a variable
                    // a singleton row may fix its variable; allow it
                    Cc[jj] = Cc[jj]; double a = q.A[i][jj]; double fixed = 0; bool known = true; for (int j = 0; j < p.n; j++) if (!Cc[j] && q.A[i][j] != 0) { if (fabs(q.ub[j] - q.lb[j]) < 1e-5) fixed += q.A[i][j] * q.lb[j]; else known = false; }
                    if (!known) { Cc[jj] = false; } else { double lo = (q.lhs[i] - fixed) / a, hi = (q.rhs[i] - fixed) / a; if (a < 0) std::swap(lo, hi); q.lb[jj] = std::max(q.lb[jj], lo); q.ub[jj] = std::min(q.ub[jj], hi); if (q.ub[jj] - q.lb[jj] < 1e-5) { double v = q.lb[jj]; q.lb[jj] = q.ub[jj] = v; } } } } }
    t.m = t.n = t.nnz = 0; for (int i = 0; i < p.m; i++) t.m += R[i]; for (int j = 0; j < p.n; j++) t.n += Cc[j]; for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) if (R[i] && Cc[j] && q.A[i][j] != 0) t.nnz++; return t;
}
struct Inert { bool idle = false; std::string must; };
// Can any enabled family do anything on p? idle: certainly not (with margins). must: name of an enabled family with an obvious case.
static Inert inert(const LP &p, const SetSpec &q) {
    Inert w; bool idle = true; auto fin = [](double v) { return std::isfinite(v); }; auto busy = [&](int f, const char *obvious) { if (f < 0 || q.b[f]) { idle = false; if (obvious && w.must.empty() && f >= 0) w.must = obvious; } };
    std::vector<int> rs(p.m), cs(p.n); for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) if (p.A[i][j] != 0) { rs[i]++; cs[j]++; }
    for (int j = 0; j < p.n; j++) { if (cs[j] == 0 || !(p.ub[j] - p.lb[j] > 1e-3)) busy(-1, nullptr); }
    for (int i = 0; i < p.m; i++) { if (rs[i] < 2 || (!fin(p.lhs[i]) && !fin(p.rhs[i])) || (p.lhs[i] != p.rhs[i] && !(p.rhs[i] - p.lhs[i] > 1e-3))) busy(-1, nullptr); if (rs[i] == 2 && p.lhs[i] == p.rhs[i]) busy(S_DTON, nullptr); }
    for (int j = 0; j < p.n; j++) { int up = 0, dn = 0; for (int i = 0; i < p.m; i++) if (p.A[i][j] != 0) { bool l = fin(p.lhs[i]), u = fin(p.rhs[i]); if (p.A[i][j] < 0) std::swap(l, u); up += u; dn += l; if (cs[j] == 1) busy(S_STON, p.lhs[i] == p.rhs[i] && !fin(p.lb[j]) && !fin(p.ub[j]) && rs[i] > 2 && fabs(p.A[i][j]) > 0.1 && fabs(p.A[i][j]) < 100 ? "singleton columns" : nullptr); }
        if (!up || !dn) busy(S_DUALFIX, (!dn && p.c[j] > 0 && fin(p.lb[j])) || (!up && p.c[j] < 0 && fin(p.ub[j])) ? "dual fix" : nullptr); }
    auto prop = [](const std::vector<double> &a, const std::vector<double> &b, double &f) { f = 0; for (size_t k = 0; k < a.size(); k++) { if ((a[k] == 0) != (b[k] == 0)) return false; if (a[k] == 0) continue; if (f == 0) f = b[k] / a[k]; else if (fabs(b[k] - f * a[k]) > 1e-4 * (fabs(b[k]) + fabs(f * a[k]))) return false; } return f != 0; };
    auto exact = [&](const std::vector<double> &a, const std::vector<double> &b, double f) { int e; if (fabs(std::frexp(f, &e)) != 0.5) return false; for (size_t k = 0; k < a.size(); k++) if (b[k] != f * a[k]) return false; return true; };
    double f; for (int i = 0; i < p.m; i++) for (int k = i + 1; k < p.m; k++) if (rs[i] == rs[k] && rs[i] > 1 && prop(p.A[i], p.A[k], f)) busy(S_PROWS, exact(p.A[i], p.A[k], f) ? "parallel rows" : nullptr);
    std::vector<std::vector<double>> T(p.n, std::vector<double>(p.m)); for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) T[j][i] = p.A[i][j];
    for (int j = 0; j < p.n; j++) for (int k = j + 1; k < p.n; k++) if (cs[j] == cs[k] && cs[j] && prop(T[j], T[k], f)) busy(S_PCOLS, exact(T[j], T[k], f) && p.c[k] == f * p.c[j] ? "parallel columns" : nullptr);
    if (q.b[S_PRIMAL]) for (int i = 0; i < p.m && (idle || w.must.empty()); i++) {
        LD mn = 0, mx = 0; int nmn = 0, nmx = 0; auto lo = [&](int j) { return p.A[i][j] > 0 ? (LD)p.A[i][j] * p.lb[j] : (LD)p.A[i][j] * p.ub[j]; }; auto hi = [&](int j) { return p.A[i][j] > 0 ? (LD)p.A[i][j] * p.ub[j] : (LD)p.A[i][j] * p.lb[j]; };
        for (int j = 0; j < p.n; j++) if (p.A[i][j] != 0) { if (std::isfinite((double)lo(j))) mn += lo(j); else nmn++; if (std::isfinite((double)hi(j))) mx += hi(j); else nmx++; }
        LD d = 1e-3; bool l = fin(p.lhs[i]), u = fin(p.rhs[i]);
        if (u && (!nmn && mn > p.rhs[i] - d)) busy(S_PRIMAL, nullptr); if (u && !nmx && mx < p.rhs[i] + d) busy(S_PRIMAL, !l && rs[i] > 1 && mx < p.rhs[i] - 0.5 ? "primal propagation" : nullptr);
        if (l && (!nmx && mx < p.lhs[i] + d)) busy(S_PRIMAL, nullptr); if (l && !nmn && mn > p.lhs[i] - d) busy(S_PRIMAL, !u && rs[i] > 1 && mn > p.lhs[i] + 0.5 ? "primal propagation" : nullptr);
        for (int j = 0; j < p.n; j++) if (p.A[i][j] != 0) { LD a = p.A[i][j], nl = -INFINITY, nu = INFINITY; bool li = !std::isfinite((double)lo(j)), hi_ = !std::isfinite((double)hi(j));
            if (u && nmn - li == 0) { LD v = (p.rhs[i] - (mn - (li ? 0 : lo(j)))) / a; if (a > 0) nu = std::min(nu, v); else nl = std::max(nl, v); }
            if (l && nmx - hi_ == 0) { LD v = (p.lhs[i] - (mx - (hi_ ? 0 : hi(j)))) / a; if (a > 0) nl = std::max(nl, v); else nu = std::min(nu, v); }
            auto implied = [&](bool have, LD gain) { if (!have) busy(S_PRIMAL, nullptr); else if (gain > 1e-6L && q.b[S_FINITE]) busy(S_PRIMAL, nullptr); };
            if (std::isfinite((double)nl)) { implied(fin(p.lb[j]), nl - p.lb[j]); if (nl > p.ub[j] - d) busy(S_PRIMAL, nullptr); } if (std::isfinite((double)nu)) { implied(fin(p.ub[j]), p.ub[j] - nu); if (nu < p.lb[j] + d) busy(S_PRIMAL, nullptr); } } }
    w.idle = idle; if (idle) w.must.clear(); return w;
}
static void run_settings(const Scenario &s) {
    const LP &p = s.lps[0]; const SetSpec &q = s.sets[0]; Outcome o; std::string run_out, post_out; size_t lim = 0;
    sim_begin(s.cfg); Inputs in = make_inputs(p);
    sim_run({[&] {
        Settings *st = default_settings(); if (!st) violation("creation-failed", "default settings failed");
        if (!(st->ston_cols && st->dton_eq && st->parallel_rows && st->parallel_cols && st->primal_propagation && st->finite_bound_tightening && st->dual_fix && st->relax_bounds)) violation("defaults", "a reduction is off by default");
        if (s.args[0] & 1) { set_settings_false(st); if (st->ston_cols || st->dton_eq || st->parallel_rows || st->parallel_cols || st->primal_propagation || st->finite_bound_tightening || st->dual_fix || st->relax_bounds || st->verbose) violation("switches", "switching everything off left something on"); }
        if (s.args[0] & 2) { set_settings_true(st); if (!(st->ston_cols && st->dton_eq && st->parallel_rows && st->parallel_cols && st->primal_propagation && st->finite_bound_tightening && st->dual_fix && st->relax_bounds && st->verbose)) violation("switches", "switching everything on left something off"); }
        fill_settings(st, q); Settings before = *st; lib_readonly(st, true);
        Presolver *P = create(in, st); if (!P) violation("creation-failed", "creation returned NULL although nothing failed");
        if (!q.verbose && !g_out.empty()) violation("output", "creation printed something");
        o.status = run_presolver(P); run_out = g_out; capture_stats(P, o);
        if (!is_verdict(o.status)) { capture_reduced(P, o); size_t b = g_out.size() + g_err.size(); PostReq t = arb_post(o.n, o.m, s.seed); call_post(P, t.x, t.y, t.z); if (!q.verbose && g_out.size() + g_err.size() != b) violation("output", "postsolve printed although verbosity is off"); }
        free_presolver(P); lib_readonly(st, false); if (st->ston_cols != before.ston_cols || st->dton_eq != before.dton_eq || st->parallel_rows != before.parallel_rows || st->parallel_cols != before.parallel_cols || st->primal_propagation != before.primal_propagation || st->finite_bound_tightening != before.finite_bound_tightening || st->dual_fix != before.dual_fix || st->relax_bounds != before.relax_bounds || st->verbose != before.verbose || st->max_shift != before.max_shift || memcmp(&st->max_time, &before.max_time, sizeof(double))) violation("settings-modified", "the settings object was modified"); free_settings(st);
    }});
    account(); no_exit(); sig_outcome(o); count_status(o.status); (void)lim;
    int bits = 0; for (int i = 0; i < 8; i++) bits |= q.b[i] << i; sigadd((uint64_t)bits); g_run.nontrivial = true;
    bool expired = g_st.jumps_fired || q.max_time < 1;
    if (!q.verbose && !is_verdict(o.status) && !expired && (!run_out.empty() || !g_err.empty())) violation("output", "presolving printed although verbosity is off: " + run_out.substr(0, 60));
    if (!q.b[S_PRIMAL] && (o.st[8] || o.tm[3] != 0)) violation("switch-ignored", "primal propagation is off but is reported to have worked");
    if (!q.b[S_PROWS] && (o.st[9] || o.tm[4] != 0)) violation("switch-ignored", "parallel rows are off but are reported to have worked");
    if (!q.b[S_PCOLS] && (o.st[10] || o.tm[5] != 0)) violation("switch-ignored", "parallel columns are off but are reported to have worked");
    if (!q.b[S_STON] && !q.b[S_DTON] && o.st[7]) violation("switch-ignored", "singleton columns and doubleton rows are off but fast reductions are reported");
    if (is_verdict(o.status)) return;
    TrivRef t = trivial_fixpoint(p); bool off = true; for (int i : {S_STON, S_DTON, S_PROWS, S_PCOLS, S_PRIMAL, S_DUALFIX}) if (q.b[i]) off = false;
    if (off && (o.m < t.m || o.n < t.n || o.nnz < t.nnz)) violation("switch-ignored", "every family is off but more than trivial reductions happened: " + std::to_string(o.m) + "x" + std::to_string(o.n) + " instead of " + std::to_string(t.m) + "x" + std::to_string(t.n));
    Inert w = inert(p, q); if (w.idle) { g_ctr[K_PROBE5]++;
        if (o.m != (size_t)p.m || o.n != (size_t)p.n || o.nnz != p.nnz()) violation("switch-ignored", "no enabled family has anything to do, but the problem shrank to " + std::to_string(o.m) + "x" + std::to_string(o.n));
        if (o.status != 0) violation("switch-ignored", "no enabled family has anything to do, but the status is not UNCHANGED");
        LP d = to_lp(o); for (int i = 0; i < p.m; i++) { if (d.A[i] != p.A[i]) violation("switch-ignored", "no enabled family has anything to do, but a row changed"); if (d.lhs[i] != p.lhs[i] || d.rhs[i] != p.rhs[i]) violation("switch-ignored", "no enabled family has anything to do, but the sides of a row changed"); }
        for (int j = 0; j < p.n; j++) { if (d.c[j] != p.c[j]) violation("switch-ignored", "no enabled family has anything to do, but a cost changed"); bool l = d.lb[j] == p.lb[j] || (q.b[S_RELAX] && d.lb[j] == -INFINITY), u = d.ub[j] == p.ub[j] || (q.b[S_RELAX] && d.ub[j] == INFINITY); if (!l || !u) violation("switch-ignored", "no enabled family has anything to do, but a bound changed"); }
        if (o.off != 0) violation("switch-ignored", "no enabled family has anything to do, but there is an objective offset"); }
    else if (!w.must.empty() && o.status == 0 && g_st.jumps_fired == 0 && s.cfg.ns_per_kstep == 0 && q.max_time > 1 && q.max_shift >= 10) {
        for (int v : {0, 1, 2, 3, 4, 5, 6, 7}) { Scenario a = s; a.cfg.tie = v; if (reference(a, p, q, 0, s.seed).status != 0) return; } // of rows or columns whose hashes collide only those parallel to the first are found: another order of equal keys may find it
        violation("switch-ignored", w.must + " is enabled and has an obvious case, but nothing was reduced"); }
}

// ------------------------------------------------------------------ P22: what is printed is true, and printing changes nothing else
static size_t count_of(const std::string &t, const std::string &w) { size_t n = 0; for (size_t k = t.find(w); k != std::string::npos; k = t.find(w, k + w.size())) n++; return n; }
static std::vector<double> numbers(const std::string &t) { std::vector<double> v; for (size_t k = 0; k < t.size();) { if (isdigit((unsigned char)t[k]) && (!k || !(isalnum((unsigned char)t[k - 1]) || t[k - 1] == '.'))) { char *e; v.push_back(strtod(t.c_str() + k, &e)); k = (size_t)(e - t.c_str()); } else k++; } return v; }
static void run_report(const Scenario &s) {
    const LP &p = s.lps[0]; SetSpec q = s.sets[0]; Outcome o[2], full; std::string run_out[2], post_out[2], create_out; double elapsed = 0; int np = 2;
    { SetSpec u = q; u.max_time = INFINITY; SimCfg c = ref_cfg(s.cfg); c.tick_ns = 0; sim_begin(c); Inputs in = make_inputs(p); Settings *st = user_settings(u); sim_run({[&] { full = life(in, st, np, s.seed); }}); account(); no_exit(); }
    for (int v = 0; v < 2; v++) {
        SetSpec u = q; u.verbose = !v; std::vector<double> ptm; sim_begin(s.cfg); Inputs in = make_inputs(p); Settings *st = user_settings(u);
        sim_run({[&] { Presolver *P = create(in, st); if (!P) violation("creation-failed", "creation returned NULL although nothing failed"); create_out = g_out; size_t b = g_out.size(), r0 = g_reads.size();
            o[v].status = run_presolver(P); run_out[v] = g_out.substr(b); capture_stats(P, o[v]); if (!v && g_reads.size() > r0) elapsed = (double)(g_reads.back() - g_reads[r0]) * 1e-9;
            if (!is_verdict(o[v].status)) { capture_reduced(P, o[v]); for (int k = 0; k < np; k++) { PostReq t = arb_post(o[v].n, o[v].m, mix(s.seed, (uint64_t)k)); b = g_out.size(); o[v].sols.push_back(call_post(P, t.x, t.y, t.z)); post_out[v] = g_out.substr(b); Outcome c; capture_stats(P, c); ptm.push_back(c.tm[7]);
                if (!v) { std::vector<double> n = numbers(post_out[v]); if (n.empty()) { if (!post_out[v].empty()) violation("untrue-report", "postsolve printed no time"); } else if (!(fabs(n.back() - c.tm[7]) <= 6e-4 + 1e-3 * fabs(c.tm[7]))) violation("untrue-report", "postsolve printed another time than the statistics report: " + post_out[v]); } } }
            free_presolver(P); }});
        account(); no_exit(); if (!g_err.empty()) violation("untrue-report", "an error message although nothing failed: " + g_err);
        const std::string &t = run_out[v]; size_t inf = count_of(t, "infeasible"), unb = count_of(t, "unbounded"), lim = count_of(t, "limit"); int S = o[v].status;
        if (!create_out.empty() && v) violation("untrue-report", "creation printed although verbosity is off");
        if (inf != (size_t)is_verdict(S) || unb != (size_t)(S == UNBNDORINFEAS)) violation("untrue-report", "the verdict printed does not match status " + std::to_string(S) + ": " + t);
        if (lim > 1) violation("untrue-report", "the time limit is announced more than once");
        if (lim) { g_ctr[K_CUTS]++; if (v == 0 && !(elapsed >= q.max_time - 1e-6)) violation("untrue-report", "the time limit is announced although it has not passed"); std::vector<double> n = numbers(t.substr(t.find("limit"))); if (q.max_time >= 0 && q.max_time < 1e9 && (n.empty() || !(fabs(n[0] - q.max_time) <= 0.006))) violation("untrue-report", "another time limit is announced than the configured one: " + t); }
        if (!lim && !is_verdict(S)) { Outcome a = full, b = o[v]; if (a.bytes() != b.bytes()) violation("untrue-report", "presolving was cut short without announcing it"); }
        if (v == 0) { size_t k = t.find(" rows"), b = k == std::string::npos ? 0 : t.rfind('\n', k); b = b == std::string::npos ? 0 : b; std::vector<double> n = k == std::string::npos ? std::vector<double>() : numbers(t.substr(b)); 
            if (n.size() < 3 || n[0] != (double)o[v].st[0] || n[1] != (double)o[v].st[1] || n[2] != (double)o[v].st[2]) violation("untrue-report", "the size printed for the original problem is wrong: " + t);
            if (!is_verdict(S)) { size_t k2 = t.find(" rows", k + 1); size_t b2 = k2 == std::string::npos ? 0 : t.rfind('\n', k2); n = k2 == std::string::npos ? std::vector<double>() : numbers(t.substr(b2)); if (n.size() < 5 || n[0] != (double)o[v].m || n[1] != (double)o[v].n || n[2] != (double)o[v].nnz) violation("untrue-report", "the size printed for the reduced problem is wrong: " + t);
                for (int i = 0; i < 2; i++) { double w = o[v].tm[i ? 6 : 0]; if (!(fabs(n[3 + i] - w) <= 6e-4 + 1e-3 * fabs(w))) violation("untrue-report", "the durations printed differ from the statistics: " + t); } } }
    }
    sig_outcome(o[0]); count_status(o[0].status); g_run.nontrivial = true;
    if (!s.cfg.ns_per_kstep) { if (is_verdict(o[0].status) && is_verdict(o[1].status)) { o[0].sols.clear(); o[1].sols.clear(); } same(o[0], o[1], "the same problem with verbosity off"); }
}

// ------------------------------------------------------------------ generation
std::vector<std::string> all_props() { return {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22"}; }
bool known_prop(const std::string &p) { for (auto &q : all_props()) if (q == p) return true; return false; }
static SetSpec gen_settings(Rng &r) {
    SetSpec q; double u = r.unit(); if (u < 0.45) {} else if (u < 0.6) { for (int &b : q.b) b = 0; q.b[r.below(8)] = 1; if (r.chance(0.5)) q.b[r.below(8)] = 1; } else { double pr = r.unit(); for (int &b : q.b) b = r.chance(pr); }
    if (r.chance(0.3)) q.max_shift = (int[]){0, 1, 2, 5, 50}[r.below(5)]; q.verbose = r.chance(0.15); return q;
}
static void gen_sched(Rng &r, SimCfg &c) { c.strat = r.range(0, 3); c.gap = 1 << r.range(0, 9); c.pct_d = r.range(1, 4); c.pct_len = 200 << r.range(0, 8); }
static void gen_env(Rng &r, SimCfg &c) { c.rseed = r.next(); c.fill = (int)r.below(FILL_NMODES); c.pad = (int)r.below(1024); c.tie = (int)r.below(8); c.t0_ns = (int64_t)r.below(1000000000000000ull); if (r.chance(0.3)) c.t0_ns = c.t0_ns / 1000000000 * 1000000000 + 999999000; c.tick_ns = (int64_t)r.below(2000); gen_sched(r, c); }
Scenario gen_scenario(const std::string &prop, uint64_t vs, uint64_t idx) {
    Scenario s; s.prop = prop; s.index = idx; uint64_t h = 0; for (char ch : prop) h = h * 131 + (uint64_t)ch; s.seed = mix(mix(vs, h), idx); Rng r(s.seed); gen_env(r, s.cfg);
    int P = atoi(prop.c_str() + 1); s.cfg.mem_fatal = 0; s.cfg.max_steps = 60000000;
    auto lpk = [&] { double u = r.unit(); if (u > 0.9995 && P != 15) return GEN_HUGE; if (u > 0.97 && u < 0.98) return GEN_BLOCKS; if (u > 0.965 && u <= 0.97) return GEN_LONG; return u < 0.05 ? GEN_BIG : u < 0.2 ? GEN_CASCADE : u < 0.35 ? GEN_UNIQUE : u < 0.45 && P != 15 && P > 4 && P < 16 ? GEN_EXTREME : u > 0.98 ? GEN_COLLIDE : GEN_MIX; };
    if (P <= 5 || (P >= 16 && P != 22)) {
        s.lps.push_back(gen_lp(r, (P == 4 || P == 21) && r.chance(0.5) ? GEN_UNIQUE : lpk())); s.sets.push_back(gen_settings(r)); s.args = {r.range(1, 3), (int64_t)(r.next() >> 2), 0}; if (s.lps[0].n + s.lps[0].m > 500) s.args[0] = 1;
        if (r.chance(0.25)) s.cfg.jumps.push_back({r.range(2, r.chance(0.5) ? 8 : 30), 1000000000000LL}); if (r.chance(0.1)) s.cfg.ns_per_kstep = (int64_t)r.below(200) * 1000000000LL;
        if (r.chance(0.05)) s.sets[0].max_time = 0; else if (r.chance(0.05)) s.sets[0].max_time = INFINITY;
    } else switch (P) {
        case 6: case 13: s.cfg.mem_fatal = 1; s.lps.push_back(gen_lp(r, r.chance(0.0005) ? GEN_HUGE : r.chance(0.06) ? GEN_WIDE : r.chance(0.05) ? GEN_BIG : GEN_MIX)); s.sets.push_back(gen_settings(r)); s.args = {(int64_t)r.below(1000), r.chance(0.3)}; s.cfg.sticky = r.chance(0.3);
            if (P == 13) { s.cfg.thread_fail = r.chance(0.8) ? 1 : (int)r.range(1, 3); if (r.chance(0.6)) s.args[0] = -1; s.args[1] = 0; } else if (r.chance(0.1)) s.cfg.thread_fail = 1; if (r.chance(0.2)) { s.lps.push_back(gen_lp(r, lpk())); s.cfg.pct_len = 2000 << r.range(0, 8); s.cfg.gap = 1 << r.range(2, 11); } break;
        case 7: s.cfg.mem_fatal = 1; s.lps.push_back(gen_lp(r, r.chance(0.03) ? GEN_WIDE : lpk())); s.sets.push_back(gen_settings(r)); s.args = {3}; if (s.seed & 1) s.sets[0].max_time = s.seed & 2 ? INFINITY : 1e9; break;
        case 8: { s.cfg.mem_fatal = 1; int K = r.range(2, 3); bool same = r.chance(0.25); for (int k = 0; k < K; k++) s.lps.push_back(same && k ? s.lps[0] : gen_lp(r, lpk())); int ns = r.chance(0.5) ? 1 : K; for (int k = 0; k < ns; k++) { s.sets.push_back(gen_settings(r)); if (r.chance(0.08)) s.sets.back().max_time = 0; } s.args = {r.chance(0.2), same}; s.cfg.pct_len = 2000 << r.range(0, 8); s.cfg.gap = 1 << r.range(2, 11); break; }
        case 22: s.lps.push_back(gen_lp(r, r.chance(0.4) ? GEN_CASCADE : lpk())); s.sets.push_back(gen_settings(r)); s.args = {0}; { double u = r.unit(); if (u < 0.1) s.sets[0].max_time = 0; else if (u < 0.15) s.sets[0].max_time = INFINITY; else if (u < 0.4) s.sets[0].max_time = (double)r.range(1, 40000) / 1000; u = r.unit(); if (u < 0.4) s.cfg.jumps.push_back({r.range(0, r.chance(0.6) ? 10 : 40), (int64_t)r.below(8) * 20000000000LL + (int64_t)r.below(1000000000)}); if (r.chance(0.2)) s.cfg.jumps.push_back({r.range(0, 40), (int64_t)r.below(100) * 1000000000LL + 999999999LL}); if (r.chance(0.2)) s.cfg.ns_per_kstep = (int64_t)r.below(3000) * 10000000LL; } break;
        case 9: s.cfg.mem_fatal = 1; s.lps.push_back(gen_lp(r, r.chance(0.03) ? GEN_WIDE : lpk())); s.sets.push_back(gen_settings(r)); if (r.chance(0.06)) s.sets[0].max_time = 0; s.args = {(int64_t)r.below(4)}; break;
        case 10: { int lk = r.chance(0.5) ? GEN_CASCADE : lpk(); s.lps.push_back(gen_lp(r, lk)); SetSpec q = gen_settings(r); if (r.chance(0.5)) { q = SetSpec(); } s.sets.push_back(q); s.args = {lk == GEN_EXTREME}; double u = r.unit(); if (u < 0.15) s.sets[0].max_time = 0; else if (u < 0.25) s.sets[0].max_time = INFINITY; else if (u < 0.35) s.sets[0].max_time = 1e-3; else if (u < 0.45) s.sets[0].max_time = 1.5;
            u = r.unit(); if (u < 0.6) { s.cfg.jumps.push_back({r.range(0, r.chance(0.6) ? 10 : 40), (int64_t)r.below(4) ? 100000000000LL : (int64_t)r.below(2000000000) }); if (r.chance(0.3)) s.cfg.jumps.push_back({r.range(0, 40), (int64_t)r.below(100) * 1000000000LL + 999999999LL}); } else if (u < 0.8) s.cfg.ns_per_kstep = (int64_t)r.below(3000) * 10000000LL; else if (u < 0.9) s.cfg.tick_ns = 0; break; }
        case 11: { s.cfg.mem_fatal = 1; int K = r.range(1, 2); for (int k = 0; k < K; k++) s.lps.push_back(gen_lp(r, lpk())); s.sets.push_back(gen_settings(r)); if (r.chance(0.06)) s.sets[0].max_time = 0; s.args = {r.range(2, 4)}; if (r.chance(0.2)) s.cfg.jumps.push_back({r.range(2, 12), 0}); break; }
        case 12: { s.cfg.mem_fatal = 1; int K = r.range(1, 3); for (int k = 0; k < K; k++) s.lps.push_back(gen_lp(r, r.chance(0.03) ? GEN_WIDE : lpk())); for (int k = 0; k < K; k++) { s.sets.push_back(gen_settings(r)); if (r.chance(0.06)) s.sets.back().max_time = r.chance(0.5) ? 0 : -1; } s.args = {0}; if (r.chance(0.3)) s.cfg.jumps.push_back({r.range(2, 20), 1000000000000LL}); break; }
        case 14: s.cfg.mem_fatal = 1; s.lps.push_back(gen_lp(r, r.chance(0.1) ? GEN_WIDE : r.chance(0.35) ? GEN_BIG : lpk())); s.sets.push_back(gen_settings(r)); s.args = {(int64_t)r.below(100000)}; s.cfg.sticky = r.chance(0.3); if (r.chance(0.2)) s.cfg.jumps.push_back({r.range(2, 12), 1000000000000LL}); if (r.chance(0.2)) { s.cfg.jumps.clear(); s.lps.push_back(gen_lp(r, lpk())); s.cfg.pct_len = 2000 << r.range(0, 8); s.cfg.gap = 1 << r.range(2, 11); } break;
        case 15: s.lps.push_back(gen_lp(r, lpk())); { SetSpec q = gen_settings(r); if (r.chance(0.5)) { for (int &b : q.b) b = 0; if (r.chance(0.4)) q.b[r.below(8)] = 1; q.b[S_FINITE] = r.chance(0.5); q.b[S_RELAX] = r.chance(0.5); } q.verbose = r.chance(0.2); s.sets.push_back(q); } if (r.chance(0.4)) { unsigned fam = r.chance(0.1) ? 0 : 1u << r.below(8); if (r.chance(0.3)) fam |= 1u << r.below(8); s.lps[0] = gen_inert(r, fam); SetSpec q; double on = r.chance(0.7) ? 1 : 0.6, off = r.chance(0.75) ? 1 : 0.5; for (int k = 0; k < 8; k++) q.b[k] = fam >> k & 1 ? !r.chance(off) : r.chance(on); q.verbose = r.chance(0.2); s.sets[0] = q; } s.args = {(int64_t)r.below(4)}; if (r.chance(0.05)) s.sets[0].max_time = r.chance(0.5) ? 0 : -1; if (r.chance(0.2)) s.cfg.jumps.push_back({r.range(2, 12), 1000000000000LL}); break;
    }
    for (auto &p : s.lps) if (p.m + p.n > 500) s.cfg.max_steps = 4000000000ull;
    return s;
}
void run_scenario(const Scenario &s) {
    int P = atoi(s.prop.c_str() + 1); if (s.lps.empty() || s.sets.empty()) violation("harness", "bad scenario"); if (s.args.size() < 3) { Scenario t = s; t.args.resize(3, 0); run_scenario(t); return; }
    switch (P) { case 1: case 2: case 3: case 4: case 5: case 16: case 17: case 18: case 19: case 20: case 21: run_semantic(s); break; case 6: case 13: run_creation_faults(s); break; case 7: run_determinism(s); break; case 8: run_concurrent(s); break; case 9: run_isolation(s); break; case 10: run_clock(s); break; case 11: run_posthist(s); break; case 12: run_lifecycle(s); break; case 14: run_late_oom(s); break; case 15: run_settings(s); break; case 22: run_report(s); break; default: violation("harness", "unknown property"); }
}
