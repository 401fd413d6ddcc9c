#include "lp.h"
#include <algorithm>
#include <cstring>
void LP::resize(int mm, int nn) {
    for (auto &row : A) row.resize(nn, 0.0);
    A.resize(mm, std::vector<double>(nn, 0.0)); lhs.resize(mm, -INFINITY); rhs.resize(mm, INFINITY);
    c.resize(nn, 0.0); lb.resize(nn, 0.0); ub.resize(nn, INFINITY); m = mm; n = nn;
}
size_t LP::nnz() const { size_t k = 0; for (auto &r : A) for (double v : r) k += v != 0.0; return k; }
bool LP::operator==(const LP &o) const { return m == o.m && n == o.n && A == o.A && lhs == o.lhs && rhs == o.rhs && c == o.c && lb == o.lb && ub == o.ub; }

// Bounded-variable two-phase primal simplex on a dense tableau in long double.
// Variables 0..n-1: x; n..n+m-1: row activities r = A x.
namespace {
const LD PT = 1e-11L, FT = 1e-12L, DT = 1e-11L;
struct Simplex {
    int m, n, N; const LP &p; std::vector<std::vector<LD>> T; std::vector<int> bas, nb; // basic var of row i, nonbasic var of column j
    std::vector<LD> L, U, val; std::vector<LD> cost; long it = 0; bool bad = false;
    int dir_var = -1; int dir_sgn = 0; int dir_col = -1;
    explicit Simplex(const LP &q) : m(q.m), n(q.n), N(q.m + q.n), p(q), T(q.m, std::vector<LD>(q.n)), bas(q.m), nb(q.n), L(N), U(N), val(N), cost(N, 0) {
        for (int i = 0; i < m; i++) { bas[i] = n + i; for (int j = 0; j < n; j++) T[i][j] = p.A[i][j]; L[n + i] = p.lhs[i]; U[n + i] = p.rhs[i]; }
        for (int j = 0; j < n; j++) { nb[j] = j; L[j] = p.lb[j]; U[j] = p.ub[j]; cost[j] = p.c[j];
            val[j] = std::isfinite((double)L[j]) ? L[j] : std::isfinite((double)U[j]) ? U[j] : 0; }
        recompute();
    }
    void recompute() { for (int i = 0; i < m; i++) { LD s = 0; for (int j = 0; j < n; j++) s += T[i][j] * val[nb[j]]; val[bas[i]] = s; } }
    void pivot(int r, int c) { // basic r <-> nonbasic c
        LD a = T[r][c]; for (int j = 0; j < n; j++) if (j != c) T[r][j] = -T[r][j] / a; T[r][c] = 1 / a;
        for (int i = 0; i < m; i++) if (i != r) { LD f = T[i][c]; if (f == 0) continue; for (int j = 0; j < n; j++) if (j != c) { T[i][j] += f * T[r][j]; if (fabsl(T[i][j]) < 1e-16L) T[i][j] = 0; } T[i][c] = f * T[r][c]; }
        std::swap(bas[r], nb[c]);
    }
    LD tol(LD b) const { return FT * (1 + fabsl(b)); }
    int viol(int v) const { if (std::isfinite((double)L[v]) && val[v] < L[v] - tol(L[v])) return -1; if (std::isfinite((double)U[v]) && val[v] > U[v] + tol(U[v])) return 1; return 0; }
    LD infeas() const { LD s = 0; for (int v = 0; v < N; v++) { if (val[v] < L[v]) s += L[v] - val[v]; if (val[v] > U[v]) s += val[v] - U[v]; } return s; }
    // one phase; returns 0 optimal, 1 unbounded, 2 failure
    int run(bool ph1) {
        for (;;) {
            if (++it > 20000) { bad = true; return 2; }
            bool bland = it > 300;
            std::vector<LD> d(n, 0); bool any = false;
            if (ph1) { for (int i = 0; i < m; i++) { int w = viol(bas[i]); if (!w) continue; any = true; for (int j = 0; j < n; j++) d[j] += w * T[i][j]; } if (!any) return 0; }
            else for (int j = 0; j < n; j++) { d[j] = cost[nb[j]]; for (int i = 0; i < m; i++) if (cost[bas[i]] != 0) d[j] += cost[bas[i]] * T[i][j]; }
            int ec = -1, es = 0; LD best = 0; int bestv = 1 << 30;
            for (int j = 0; j < n; j++) { int v = nb[j]; int s = 0; if (L[v] == U[v]) continue;
                bool canup = !(std::isfinite((double)U[v])) || val[v] < U[v] - 1e-15L * (1 + fabsl(U[v])), candn = !(std::isfinite((double)L[v])) || val[v] > L[v] + 1e-15L * (1 + fabsl(L[v]));
                if (d[j] < -DT && canup) s = 1; else if (d[j] > DT && candn) s = -1; if (!s) continue;
                if (bland) { if (v < bestv) { bestv = v; ec = j; es = s; } } else if (fabsl(d[j]) > best) { best = fabsl(d[j]); ec = j; es = s; } }
            if (ec < 0) return 0;
            // ratio test
            int v = nb[ec]; LD t = INFINITY; int lr = -1; LD lrbound = 0; LD lpiv = 0;
            if (std::isfinite((double)L[v]) && std::isfinite((double)U[v])) t = U[v] - L[v];
            for (int i = 0; i < m; i++) { LD a = T[i][ec] * es; if (fabsl(a) < PT) continue; int b = bas[i]; int w = ph1 ? viol(b) : 0; LD bound;
                if (a > 0) { if (w < 0) bound = L[b]; else if (w > 0) continue; else if (std::isfinite((double)U[b])) bound = U[b]; else continue; }
                else { if (w > 0) bound = U[b]; else if (w < 0) continue; else if (std::isfinite((double)L[b])) bound = L[b]; else continue; }
                LD q = (bound - val[b]) / a; if (q < 0) q = 0;
                bool take = false;
                if (q < t - 1e-13L) take = true;
                else if (q <= t + 1e-13L && lr >= 0) take = bland ? b < bas[lr] : fabsl(a) > fabsl(lpiv);
                else if (q <= t && lr < 0 && q < t) take = true;
                if (take) { t = std::min(t, q); lr = i; lrbound = bound; lpiv = a; } }
            if (!std::isfinite((double)t)) { dir_var = v; dir_sgn = es; dir_col = ec; return 1; }
            if (lr < 0) { // bound flip
                val[v] = es > 0 ? U[v] : L[v]; recompute(); continue; }
            LD nv = val[v] + es * t; int out = bas[lr]; pivot(lr, ec); val[v] = nv; val[out] = lrbound; recompute();
        }
    }
};
}
LD lp_pair_error(const LP &p, const std::vector<LD> &x, const std::vector<LD> &y, bool absgap) {
    LD e = 0; auto up = [&](LD v) { if (!(v <= e)) e = v; };
    for (int j = 0; j < p.n; j++) { if (!std::isfinite((double)x[j])) return INFINITY; up((p.lb[j] - x[j]) / (1 + fabsl(p.lb[j]))); up((x[j] - p.ub[j]) / (1 + fabsl(p.ub[j]))); }
    std::vector<LD> z(p.n); for (int j = 0; j < p.n; j++) z[j] = p.c[j];
    for (int i = 0; i < p.m; i++) { LD a = 0; if (!std::isfinite((double)y[i])) return INFINITY; for (int j = 0; j < p.n; j++) { a += p.A[i][j] * x[j]; z[j] -= p.A[i][j] * y[i]; }
        if (std::isfinite(p.lhs[i])) up((p.lhs[i] - a) / (1 + fabsl(p.lhs[i]))); if (std::isfinite(p.rhs[i])) up((a - p.rhs[i]) / (1 + fabsl(p.rhs[i])));
        LD dl = std::isfinite(p.lhs[i]) ? fabsl(a - p.lhs[i]) : INFINITY, du = std::isfinite(p.rhs[i]) ? fabsl(a - p.rhs[i]) : INFINITY;
        if (y[i] > 0) up(std::min(y[i], dl / (absgap ? 1 : 1 + fabsl(a)))); if (y[i] < 0) up(std::min(-y[i], du / (absgap ? 1 : 1 + fabsl(a)))); }
    for (int j = 0; j < p.n; j++) { LD dl = std::isfinite(p.lb[j]) ? fabsl(x[j] - p.lb[j]) : INFINITY, du = std::isfinite(p.ub[j]) ? fabsl(p.ub[j] - x[j]) : INFINITY;
        if (z[j] > 0) up(std::min(z[j], dl / (absgap ? 1 : 1 + fabsl(x[j])))); if (z[j] < 0) up(std::min(-z[j], du / (absgap ? 1 : 1 + fabsl(x[j])))); }
    return e;
}
static LpSol solve_one(const LP &p) {
    LpSol s; 
    for (int j = 0; j < p.n; j++) if (p.lb[j] > p.ub[j]) { s.infeas = p.lb[j] - p.ub[j]; s.st = s.infeas > 1e-7L * (1 + fabsl(p.ub[j])) ? (s.infeas > 1e-4L ? LP_INFEAS : LP_UNSURE) : LP_UNSURE; return s; }
    for (int i = 0; i < p.m; i++) if (p.lhs[i] > p.rhs[i]) { s.infeas = p.lhs[i] - p.rhs[i]; s.st = s.infeas > 1e-4L ? LP_INFEAS : LP_UNSURE; return s; }
    Simplex S(p); int k = S.run(true);
    if (S.bad) return s;
    LD inf = S.infeas(); s.infeas = inf;
    bool feas = true; for (int v = 0; v < S.N; v++) if (S.viol(v)) feas = false;
    if (!feas) {
        if (k != 0) return s; if (inf < 1e-4L) return s;
        // Farkas certificate from the phase-1 gradient
        std::vector<LD> g(p.m, 0); // weights on rows: sum g_i (r_i - a_i x) = 0
        // d over nonbasics: infeasibility = const + sum d_j val_nb ; row activities in terms of x
        std::vector<LD> d(S.N, 0); for (int i = 0; i < p.m; i++) { int w = S.viol(S.bas[i]); if (w) { d[S.bas[i]] += w; for (int j = 0; j < p.n; j++) d[S.nb[j]] -= w * S.T[i][j]; } }
        // sum_v d_v val_v == 0 identically (on r=Ax). min over boxes must be > 0 or max < 0.
        LD mx = 0; bool ok = true; LD ident = 0;
        for (int j = 0; j < p.n; j++) { LD q = d[j]; for (int i = 0; i < p.m; i++) q += d[p.n + i] * p.A[i][j]; ident = std::max(ident, fabsl(q)); }
        for (int v = 0; v < S.N; v++) { if (fabsl(d[v]) < 1e-9L) continue; LD b = d[v] > 0 ? S.U[v] : S.L[v]; if (!std::isfinite((double)b)) { ok = false; break; } mx += d[v] * b; }
        LD mn = 0; bool ok2 = true; for (int v = 0; v < S.N; v++) { if (fabsl(d[v]) < 1e-9L) continue; LD b = d[v] > 0 ? S.L[v] : S.U[v]; if (!std::isfinite((double)b)) { ok2 = false; break; } mn += d[v] * b; }
        if (ident < 1e-7L && ((ok && mx < -1e-6L) || (ok2 && mn > 1e-6L))) s.st = LP_INFEAS;
        return s;
    }
    k = S.run(false); if (S.bad) return s;
    feas = true; for (int v = 0; v < S.N; v++) if (S.viol(v)) feas = false; if (!feas) return s;
    s.x.resize(p.n); for (int j = 0; j < p.n; j++) s.x[j] = S.val[j];
    // with very large numbers a violation within the relative tolerance may be visible in absolute terms: then nothing is decided
    { LD e = 0; for (int j = 0; j < p.n; j++) e = std::max({e, p.lb[j] - s.x[j], s.x[j] - p.ub[j]}); for (int i = 0; i < p.m; i++) { LD v = 0; for (int j = 0; j < p.n; j++) v += p.A[i][j] * s.x[j]; e = std::max({e, p.lhs[i] - v, v - p.rhs[i]}); } if (e > 2e-8L) { s.x.clear(); return s; } }
    if (k == 1) { // verify ray
        std::vector<LD> d(p.n, 0); std::vector<LD> dv(S.N, 0); dv[S.dir_var] = S.dir_sgn; for (int i = 0; i < p.m; i++) dv[S.bas[i]] = S.T[i][S.dir_col] * S.dir_sgn;
        LD cd = 0; for (int j = 0; j < p.n; j++) { d[j] = dv[j]; cd += p.c[j] * d[j]; }
        bool ok = cd < -1e-8L; for (int j = 0; j < p.n; j++) { if (d[j] > 1e-13L && std::isfinite(p.ub[j])) ok = false; if (d[j] < -1e-13L && std::isfinite(p.lb[j])) ok = false; }
        for (int i = 0; i < p.m; i++) { LD a = 0, w = 0; for (int j = 0; j < p.n; j++) { a += p.A[i][j] * d[j]; w += fabsl(p.A[i][j] * d[j]); } if (a > 1e-11L * w && std::isfinite(p.rhs[i])) ok = false; if (a < -1e-11L * w && std::isfinite(p.lhs[i])) ok = false; }
        if (ok) s.st = LP_UNBND; return s;
    }
    s.y.assign(p.m, 0); s.z.assign(p.n, 0);
    std::vector<LD> d(S.N, 0); bool uniq = true;
    for (int j = 0; j < p.n; j++) { LD q = S.cost[S.nb[j]]; for (int i = 0; i < p.m; i++) q += S.cost[S.bas[i]] * S.T[i][j]; d[S.nb[j]] = q; int v = S.nb[j]; if (fabsl(q) < 1e-6L && S.L[v] != S.U[v]) uniq = false; if (S.L[v] == S.U[v] && false) uniq = false; }
    for (int i = 0; i < p.m; i++) { int v = S.bas[i]; if (S.val[v] - S.L[v] < 1e-6L || S.U[v] - S.val[v] < 1e-6L) uniq = false; }
    for (int i = 0; i < p.m; i++) s.y[i] = d[p.n + i];
    s.obj = 0; for (int j = 0; j < p.n; j++) { s.obj += p.c[j] * s.x[j]; s.z[j] = p.c[j]; } for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) s.z[j] -= p.A[i][j] * s.y[i];
    s.unique = uniq;
    if (lp_pair_error(p, s.x, s.y, true) < 1e-7L) s.st = LP_OPT;
    return s;
}
// independent parts of a larger problem are solved one by one
LpSol lp_solve(const LP &p) {
    if (p.m + p.n <= 40) return solve_one(p);
    std::vector<int> f(p.n + p.m); for (size_t i = 0; i < f.size(); i++) f[i] = (int)i;
    auto find = [&](int v) { while (f[v] != v) { f[v] = f[f[v]]; v = f[v]; } return v; };
    for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) if (p.A[i][j] != 0) f[find(p.n + i)] = find(j);
    std::vector<int> id(p.n + p.m, -1); std::vector<std::vector<int>> cols, rows; int rest = -1;
    std::vector<int> sz(p.n + p.m, 0); for (int v = 0; v < p.n + p.m; v++) sz[find(v)]++;
    for (int v = 0; v < p.n + p.m; v++) { int g = find(v), &k = sz[g] == 1 ? rest : id[g]; if (k < 0) { k = (int)cols.size(); cols.emplace_back(); rows.emplace_back(); } if (v < p.n) cols[k].push_back(v); else rows[k].push_back(v - p.n); }
    if (cols.size() == 1) return solve_one(p);
    LpSol s; s.st = LP_OPT; s.unique = true; s.x.assign(p.n, 0); s.y.assign(p.m, 0); s.z.assign(p.n, 0); bool unb = false, unsure = false;
    for (size_t k = 0; k < cols.size(); k++) {
        LP q; q.resize((int)rows[k].size(), (int)cols[k].size());
        for (int j = 0; j < q.n; j++) { q.c[j] = p.c[cols[k][j]]; q.lb[j] = p.lb[cols[k][j]]; q.ub[j] = p.ub[cols[k][j]]; }
        for (int i = 0; i < q.m; i++) { q.lhs[i] = p.lhs[rows[k][i]]; q.rhs[i] = p.rhs[rows[k][i]]; for (int j = 0; j < q.n; j++) q.A[i][j] = p.A[rows[k][i]][cols[k][j]]; }
        LpSol t = solve_one(q); s.infeas = std::max(s.infeas, t.infeas);
        if (t.st == LP_INFEAS) { t.x.clear(); t.y.clear(); t.z.clear(); t.infeas = s.infeas; return t; }
        if (t.st == LP_UNBND) unb = true; else if (t.st != LP_OPT) unsure = true; if (t.st != LP_OPT) continue;
        s.obj += t.obj; s.unique = s.unique && t.unique;
        for (int j = 0; j < q.n; j++) { s.x[cols[k][j]] = t.x[j]; s.z[cols[k][j]] = t.z[j]; } for (int i = 0; i < q.m; i++) s.y[rows[k][i]] = t.y[i];
    }
    if (unsure) s.st = LP_UNSURE; else if (unb) s.st = LP_UNBND; if (s.st != LP_OPT) s.unique = false; return s;
}
bool lp_feasible_with_margin(const LP &p) {
    LP q = p; auto shrink = [](double &l, double &u) { if (l == u) return; double dl = 1e-4 * (1 + fabs(l)), du = 1e-4 * (1 + fabs(u)); if (std::isfinite(l) && std::isfinite(u) && u - l < 4 * (dl + du)) { l = u = (l + u) / 2; return; } if (std::isfinite(l)) l += dl; if (std::isfinite(u)) u -= du; };
    for (int j = 0; j < q.n; j++) { q.c[j] = 0; shrink(q.lb[j], q.ub[j]); } for (int i = 0; i < q.m; i++) shrink(q.lhs[i], q.rhs[i]);
    return lp_solve(q).st == LP_OPT;
}
// kind bit 0: move primal within the optimal face, bit 1: move dual, bit 2: convex combination
LpSol lp_alternative(const LP &p, const LpSol &s, Rng &r, int kind) {
    LpSol o = s; if (s.st != LP_OPT) return s;
    if (kind & 1) {
        LP q = p; for (int j = 0; j < p.n; j++) { q.c[j] = r.range(-3, 3); if (fabsl(s.z[j]) > 1e-7L) q.lb[j] = q.ub[j] = (double)s.x[j]; else { q.lb[j] = std::max(q.lb[j], (double)s.x[j] - 50); q.ub[j] = std::min(q.ub[j], (double)s.x[j] + 50); } }
        for (int i = 0; i < p.m; i++) if (fabsl(s.y[i]) > 1e-7L) { double v = s.y[i] > 0 ? p.lhs[i] : p.rhs[i]; q.lhs[i] = q.rhs[i] = v; }
        LpSol t = lp_solve(q); if (t.st == LP_OPT) { LD w = (kind & 4) ? (LD)r.unit() : 0; for (int j = 0; j < p.n; j++) o.x[j] = w * s.x[j] + (1 - w) * t.x[j]; }
    }
    if (kind & 2) { // random optimal dual: variables y, rows z_j = c_j - a_j'y with signs given by complementarity with o.x
        LP q; q.resize(p.n, p.m);
        for (int i = 0; i < p.m; i++) { LD a = 0; for (int j = 0; j < p.n; j++) { a += p.A[i][j] * o.x[j]; q.A[j][i] = p.A[i][j]; }
            bool al = std::isfinite(p.lhs[i]) && fabsl(a - p.lhs[i]) < 1e-8L * (1 + fabsl(a)), au = std::isfinite(p.rhs[i]) && fabsl(a - p.rhs[i]) < 1e-8L * (1 + fabsl(a));
            q.ub[i] = al ? 30 : 0; q.lb[i] = au ? -30 : 0; if ((double)s.y[i] > q.ub[i]) q.ub[i] = (double)s.y[i]; if ((double)s.y[i] < q.lb[i]) q.lb[i] = (double)s.y[i]; q.c[i] = r.range(-3, 3); }
        for (int j = 0; j < p.n; j++) { bool al = std::isfinite(p.lb[j]) && fabsl(o.x[j] - p.lb[j]) < 1e-8L * (1 + fabsl(o.x[j])), au = std::isfinite(p.ub[j]) && fabsl(o.x[j] - p.ub[j]) < 1e-8L * (1 + fabsl(o.x[j]));
            // z_j >= 0 only if al, <= 0 only if au:  a_j'y <= c_j if !au ; >= c_j if !al
            q.lhs[j] = al ? -INFINITY : p.c[j]; q.rhs[j] = au ? INFINITY : p.c[j]; }
        LpSol t = lp_solve(q); if (t.st == LP_OPT) { LD w = (kind & 4) ? (LD)r.unit() : 0; for (int i = 0; i < p.m; i++) o.y[i] = w * s.y[i] + (1 - w) * t.x[i]; }
    }
    for (int j = 0; j < p.n; j++) { o.z[j] = p.c[j]; for (int i = 0; i < p.m; i++) o.z[j] -= p.A[i][j] * o.y[i]; }
    o.obj = 0; for (int j = 0; j < p.n; j++) o.obj += p.c[j] * o.x[j];
    if (!(lp_pair_error(p, o.x, o.y, true) < 1e-7L)) return s;
    o.unique = s.unique; return o;
}

// ------------------------------------------------------------------ generator
static double pick(Rng &r, int pal) {
    static const double P0[] = {1, -1}, P1[] = {1, -1, 2, -2, 3, -3}, P2[] = {1, -1, 2, -2, 3, -3, 5, -5, 7, -4, 4}, P3[] = {0.5, -0.5, 1, -1, 1.5, -2, 0.25, 4}, P4[] = {0.1, -0.3, 0.7, 1.1, -1, 1, 3, -0.2};
    switch (pal) { case 0: return P0[r.below(2)]; case 1: return P1[r.below(6)]; case 2: return P2[r.below(11)]; case 3: return P3[r.below(8)]; case 4: return P4[r.below(8)];
        default: { int v = r.range(1, 63); return (r.chance(0.5) ? 1 : -1) * v / 16.0; } }
}
static LP gen_wide(Rng &r) {
    LP p; int m = r.range(60, 260), n = r.range(60, 260); p.resize(m, n); int pal = (int)r.below(6); double w[4]; for (double &v : w) v = r.chance(0.3) ? 4 : r.unit(); double tot = w[0] + w[1] + w[2] + w[3];
    bool banded = r.chance(0.5);
    for (int i = 0; i < m; i++) { double u = r.unit() * tot; int k = 0; while (k < 3 && u > w[k]) { u -= w[k]; k++; } if (k == 3) k = r.range(3, 5); for (int t = 0; t < k; t++) p.A[i][banded ? (i + (int)r.below(4)) % n : (int)r.below(n)] = pick(r, pal); }
    std::vector<double> x(n); for (int j = 0; j < n; j++) { p.lb[j] = r.chance(0.2) ? -INFINITY : r.range(-3, 0); p.ub[j] = r.chance(0.4) ? INFINITY : r.range(1, 6); x[j] = std::isfinite(p.lb[j]) ? p.lb[j] + r.range(0, 1) : 0; p.c[j] = r.range(-1, 3); if (p.lb[j] == -INFINITY && p.ub[j] == INFINITY) p.c[j] = 0; }
    for (int i = 0; i < m; i++) { double a = 0; for (int j = 0; j < n; j++) a += p.A[i][j] * x[j]; int t = r.range(0, 3); p.lhs[i] = t == 1 ? -INFINITY : t == 0 ? a : a - r.range(0, 4); p.rhs[i] = t == 2 ? INFINITY : t == 0 ? a : a + r.range(0, 4); }
    return p;
}
static LP gen_extreme(Rng &r) {   // structure of the ordinary generator, magnitudes far outside the ordinary range
    LP p = gen_lp(r, r.chance(0.1) ? GEN_BIG : r.chance(0.2) ? GEN_CASCADE : GEN_MIX); int e = r.range(1, 40);
    auto pw = [&](int k) { return std::ldexp(1.0, r.range(-k, k)); };
    static const double H[] = {1e6, 1e7, 1e8, 1e9, 1e12, 1e15, 1e20, 1e30, 1.5, 1e-3, 1e-7, 1e-9}; auto huge = [&] { return H[r.below(12)] * (r.chance(0.5) ? 1 : 1.0 + r.unit()); };
    int what = 1 + (int)r.below(31);
    if (what & 1) for (int i = 0; i < p.m; i++) if (r.chance(0.6)) { double f = pw(e); for (double &v : p.A[i]) v *= f; p.lhs[i] *= f; p.rhs[i] *= f; }
    if (what & 2) for (int j = 0; j < p.n; j++) if (r.chance(0.6)) { double f = pw(e); for (int i = 0; i < p.m; i++) p.A[i][j] *= f; p.c[j] *= f; p.lb[j] /= f; p.ub[j] /= f; }
    if (what & 4) for (int j = 0; j < p.n; j++) if (r.chance(0.3)) { if (r.chance(0.5)) { double h = huge(); if (h >= p.lb[j]) p.ub[j] = h; } else { double h = -huge(); if (h <= p.ub[j]) p.lb[j] = h; } }
    if ((what & 8) && p.m && p.n) { int k = r.range(1, 4); while (k--) { int i = (int)r.below(p.m), j = (int)r.below(p.n); if (r.chance(0.7) || p.A[i][j] != 0) p.A[i][j] = (r.chance(0.5) ? 1 : -1) * std::pow(10.0, r.range(-13, 12)); } }
    if (what & 16) { for (int i = 0; i < p.m; i++) if (r.chance(0.2)) { double h = huge() * (r.chance(0.5) ? 1 : -1); if (p.lhs[i] == p.rhs[i]) p.lhs[i] = p.rhs[i] = h; else if (std::isfinite(p.rhs[i]) && h >= p.lhs[i]) p.rhs[i] = h; else if (std::isfinite(p.lhs[i]) && h <= p.rhs[i]) p.lhs[i] = h; } for (int j = 0; j < p.n; j++) if (r.chance(0.2)) p.c[j] = huge() * (r.chance(0.5) ? 1 : -1); }
    return p;
}
// rows or columns that are not parallel although a multiplicative (times 33) hash of their support or of their scaled coefficients is the same
static void add_collisions(LP &p, std::vector<double> &x0, Rng &r) {
    auto act = [&](int i) { LD a = 0; for (int j = 0; j < p.n; j++) a += (LD)p.A[i][j] * x0[j]; return (double)a; };
    auto side = [&](int i) { double a = act(i); int t = r.range(0, 3); p.lhs[i] = t == 1 ? -INFINITY : t == 0 ? a : a - r.range(0, 5); p.rhs[i] = t == 2 ? INFINITY : t == 0 ? a : a + r.range(0, 5); };
    auto newcol = [&](double c) { p.resize(p.m, p.n + 1); int j = p.n - 1; p.lb[j] = r.chance(0.7) ? 0 : r.range(-4, 2); p.ub[j] = r.chance(0.5) ? INFINITY : p.lb[j] + r.range(1, 8); p.c[j] = c; x0.push_back(p.lb[j] + (r.chance(0.5) ? 0 : 1)); return j; };
    auto newrow = [&] { p.resize(p.m + 1, p.n); return p.m - 1; };
    int kinds = r.range(1, 15);
    if (kinds & 1) { // supports of rows
        while (p.n < 38) { int j = newcol(r.range(0, 3)); for (int t = 0; t < 2; t++) p.A[r.below(p.m)][j] = r.range(1, 3); }
        int k = r.range(1, 3); while (k--) { int q = r.range(35, p.n - 1), j = r.range(0, q - 35), h = r.chance(0.4) ? -1 : (int)r.below(p.n); double a = r.range(1, 3) * (r.chance(0.5) ? 1 : -1), b = r.range(1, 3), f = pick(r, 1); if (h > j + 1 && h <= q) h = -1;
            int i = newrow(), e = newrow(); p.A[i][j] = a; p.A[i][q] = b; p.A[e][j + 1] = a * f; p.A[e][q - 33] = b * f; if (h >= 0 && h != j && h != j + 1) { p.A[i][h] = 1; p.A[e][h] = f; } }
    }
    if (kinds & 2) { // supports of columns
        while (p.m < 38) { int i = newrow(); for (int t = 0; t < 3; t++) p.A[i][r.below(p.n)] = r.range(1, 3); }
        int k = r.range(1, 3); while (k--) { int q = r.range(35, p.m - 1), i = r.range(0, q - 35); double a = r.range(1, 3) * (r.chance(0.5) ? 1 : -1), b = r.range(1, 3), f = pick(r, 1), c = r.range(-1, 3); int u = newcol(c), v = newcol(r.chance(0.6) ? c * f : c * f + 1); p.A[i][u] = a; p.A[q][u] = b; p.A[i + 1][v] = a * f; p.A[q - 33][v] = b * f; }
    }
    auto coeffs = [&](std::vector<double> &u, std::vector<double> &v) { int k = (int)u.size(), t = r.below(k - 1), big = r.below(k); for (double &w : u) w = r.range(1, 30) * (r.chance(0.5) ? 1 : -1); u[t + 1] = r.range(1, 60); if (big == t || big == t + 1) big = t ? 0 : k - 1; u[big] = r.chance(0.5) ? 64 : -64; if (u[0] < 0) for (double &w : u) w = -w; if (t == 0 && u[0] <= 1) u[0] = 2; v = u; int d = t == 0 ? -1 : r.chance(0.5) ? 1 : -1; if (v[t + 1] - 33 * d > 64 || v[t + 1] - 33 * d < -64) d = -d; if (t == 0 && d < 0 && u[0] <= 1) d = 1; v[t] += d; v[t + 1] -= 33 * d; double f = std::ldexp(r.chance(0.5) ? 1 : -1, r.range(-6, 1)), g = std::ldexp(r.chance(0.5) ? 1 : -1, r.range(-6, 1)); if (t && r.chance(0.3)) { v = u; v[t] += d; v[t + 1] -= 33 * d; } for (double &w : u) w *= f; for (double &w : v) w *= g; return g / f; };
    if ((kinds & 4) && p.n >= 3) { int k = r.range(1, 2); while (k--) { std::vector<int> S; int want = r.range(3, std::min(p.n, 5)); for (int g = 0; g < 50 && (int)S.size() < want; g++) { int j = (int)r.below(p.n); bool d = false; for (int w : S) if (w == j) d = true; if (!d) S.push_back(j); } if (S.size() < 3) break; std::sort(S.begin(), S.end()); std::vector<double> u(S.size()), v; coeffs(u, v); int i = newrow(), e = newrow(); for (size_t t = 0; t < S.size(); t++) { p.A[i][S[t]] = u[t]; p.A[e][S[t]] = v[t]; } } }
    if ((kinds & 8) && p.m >= 3) { int k = r.range(1, 2); while (k--) { std::vector<int> S; int want = r.range(3, std::min(p.m, 5)); for (int g = 0; g < 50 && (int)S.size() < want; g++) { int j = (int)r.below(p.m); bool d = false; for (int w : S) if (w == j) d = true; if (!d) S.push_back(j); } if (S.size() < 3) break; std::sort(S.begin(), S.end()); std::vector<double> u(S.size()), v; double f = coeffs(u, v); double c = r.range(-2, 4); int a = newcol(c), b = newcol(r.chance(0.6) ? c * f : c * f + 1); for (size_t t = 0; t < S.size(); t++) { p.A[S[t]][a] = u[t]; p.A[S[t]][b] = v[t]; } } }
    for (int i = 0; i < p.m; i++) { double a = act(i); if (a < p.lhs[i] - 1e-12 || a > p.rhs[i] + 1e-12 || (!std::isfinite(p.lhs[i]) && !std::isfinite(p.rhs[i]))) side(i); }
}
LP gen_lp(Rng &r, int kind) {
    if (kind == GEN_BLOCKS) return gen_blocks(r, r.range(20, 60)); if (kind == GEN_HUGE) return gen_huge(r);
    bool collide = kind == GEN_COLLIDE; if (collide) kind = r.chance(0.3) ? GEN_BIG : GEN_MIX;
    if (r.chance(0.004)) { // no rows at all
        LP p; p.resize(0, r.range(1, 6)); for (int j = 0; j < p.n; j++) { p.lb[j] = r.chance(0.3) ? -INFINITY : r.range(-3, 2); p.ub[j] = r.chance(0.4) ? INFINITY : std::isfinite(p.lb[j]) ? p.lb[j] + r.range(0, 4) : r.range(-3, 3); p.c[j] = r.range(-2, 2); if (r.chance(0.7) && ((p.c[j] < 0 && p.ub[j] == INFINITY) || (p.c[j] > 0 && p.lb[j] == -INFINITY))) p.c[j] = 0; } return p; }
    if (kind == GEN_MIX && r.chance(0.001)) { LP p; p.resize(r.range(0, 2), 0); for (int i = 0; i < p.m; i++) { p.lhs[i] = r.chance(0.3) ? -INFINITY : r.range(-3, r.chance(0.8) ? 0 : 2); p.rhs[i] = std::isfinite(p.lhs[i]) && r.chance(0.5) ? INFINITY : std::max(p.lhs[i], (double)r.range(-1, 3)); } return p; }
    if (kind == GEN_WIDE) return gen_wide(r); if (kind == GEN_EXTREME) return gen_extreme(r);
    LP p; int n, m; 
    if (kind == GEN_BIG) { n = r.range(12, 40); m = r.range(8, 40); }
    else if (kind == GEN_LONG) { n = r.range(30, 150); m = r.range(2, 8); if (r.chance(0.5)) std::swap(m, n); }
    else if (r.chance(0.15)) { n = r.range(6, 16); m = r.range(6, 16); }
    else { n = r.range(1, 8); m = r.range(1, 8); }
    int pal = kind == GEN_UNIQUE ? 5 : (int)r.below(6);
    p.resize(m, n);
    double dens = kind == GEN_LONG ? 0.1 + 0.8 * r.unit() : kind == GEN_BIG ? 0.05 + 0.15 * r.unit() : 0.15 + 0.6 * r.unit();
    for (auto &row : p.A) for (double &v : row) if (r.chance(dens)) v = pick(r, pal);
    // variables: bounds and a reference point
    std::vector<double> x0; double bmag = r.chance(0.2) ? 100 : 10;
    double pfree = r.unit() * 0.5, pfix = r.chance(0.3) ? 0.2 : 0.0, pub = r.unit(), pneg = r.chance(0.4) ? 0.3 : 0.05;
    auto newvar = [&](int j) {
        double lo = r.chance(0.6) ? 0 : r.range(-(int)bmag, (int)bmag), hi;
        if (kind == GEN_UNIQUE) lo += r.range(0, 15) / 16.0;
        if (r.chance(pfree)) { p.lb[j] = -INFINITY; p.ub[j] = INFINITY; if (r.chance(0.3)) p.ub[j] = r.range(-5, 10); x0[j] = std::isfinite(p.ub[j]) ? p.ub[j] - r.range(0, 5) : r.range(-5, 5); return; }
        if (r.chance(pneg)) { p.lb[j] = -INFINITY; p.ub[j] = lo; x0[j] = lo - r.range(0, 4); return; }
        p.lb[j] = lo; if (r.chance(pfix)) { p.ub[j] = lo; x0[j] = lo; return; }
        if (r.chance(pub)) { hi = lo + r.range(1, 8); p.ub[j] = hi; x0[j] = r.chance(0.3) ? lo : r.chance(0.3) ? hi : lo + r.range(0, (int)(hi - lo)); }
        else { p.ub[j] = INFINITY; x0[j] = lo + (r.chance(0.4) ? 0 : r.range(0, 6)); } };
    x0.resize(n); for (int j = 0; j < n; j++) newvar(j);
    auto act = [&](int i) { LD a = 0; for (int j = 0; j < p.n; j++) a += (LD)p.A[i][j] * x0[j]; return (double)a; };
    double peq = r.unit() * 0.7; double ptight = r.unit();
    auto sides = [&](int i, int type) { // 0 eq 1 le 2 ge 3 range
        double a = act(i), s1 = r.chance(ptight) ? 0 : r.range(1, 6), s2 = r.chance(0.3) ? 0 : r.range(1, 9);
        if (kind == GEN_UNIQUE) { s1 += r.range(1, 31) / 32.0; s2 += r.range(1, 31) / 32.0; }
        if (type < 0) type = r.chance(peq) ? 0 : r.range(1, 3);
        p.lhs[i] = -INFINITY; p.rhs[i] = INFINITY;
        if (type == 0) p.lhs[i] = p.rhs[i] = a; else if (type == 1) p.rhs[i] = a + s1; else if (type == 2) p.lhs[i] = a - s1; else { p.lhs[i] = a - s1; p.rhs[i] = a + s1 + s2; } };
    for (int i = 0; i < m; i++) sides(i, -1);
    auto addrow = [&] { p.resize(p.m + 1, p.n); return p.m - 1; };
    auto addcol = [&] { p.resize(p.m, p.n + 1); x0.push_back(0); newvar(p.n - 1); return p.n - 1; };
    std::vector<int> keepcost; std::vector<double> costv;   // columns whose cost is set by structure
    auto setcost = [&](int j, double v) { keepcost.push_back(j); costv.push_back(v); };
    bool finefeat = kind != GEN_UNIQUE && r.chance(0.2); // details far smaller or far larger than the rest, still well beyond the tolerances
    auto tiny = [&](int a, int b) { return std::ldexp(r.chance(0.5) ? 1.0 : -1.0, -r.range(a, b)); };
    int ninj = kind == GEN_BIG ? r.range(2, 12) : (int)r.below(6);
    std::vector<std::pair<int, int>> parcols; // (j,k) with ratio resolved later
    for (int q = 0; q < ninj; q++) {
        if (kind != GEN_LONG && (p.n > 45 || p.m > 45)) break;
        switch (r.below(finefeat ? 25 : 17)) {
            case 0: { int i = addrow(); p.A[i][r.below(p.n)] = pick(r, pal); sides(i, -1); break; }            // singleton row
            case 1: case 2: { if (p.n < 2) addcol(); int i = addrow(); int j = (int)r.below(p.n), k = (int)r.below(p.n); if (j == k) k = (k + 1) % p.n; p.A[i][j] = pick(r, pal); p.A[i][k] = pick(r, pal); sides(i, r.chance(0.8) ? 0 : -1); break; } // doubleton
            case 3: { addrow(); int i = p.m - 1; p.lhs[i] = r.chance(0.5) ? -r.range(0, 3) : -INFINITY; p.rhs[i] = std::isfinite(p.lhs[i]) && r.chance(0.5) ? INFINITY : r.range(0, 3); break; } // empty row
            case 4: { int j = addcol(); (void)j; break; }                                                         // empty column
            case 5: case 6: { // parallel row
                int i = (int)r.below(p.m), k = addrow(); double f = r.chance(0.3) ? 1 : r.chance(0.3) ? -1 : r.chance(0.5) ? pick(r, 1) : pick(r, pal); for (int j = 0; j < p.n; j++) p.A[k][j] = p.A[i][j] * f; sides(k, -1);
                if (r.chance(0.4)) { if (r.chance(0.5)) sides(i, r.range(1, 3)); int h = addrow(); double g = pick(r, 1); for (int j = 0; j < p.n; j++) p.A[h][j] = p.A[i][j] * g; sides(h, r.chance(0.7) ? r.range(1, 3) : 0); } break; }
            case 7: case 8: { // parallel column
                int j = (int)r.below(p.n), k = addcol(); double f = r.chance(0.4) ? 1 : r.chance(0.3) ? -1 : pick(r, 1); for (int i = 0; i < p.m; i++) p.A[i][k] = p.A[i][j] * f; parcols.push_back({k, j});
                costv.push_back(f); keepcost.push_back(-1 - k); for (int i = 0; i < p.m; i++) if (p.A[i][k] != 0) sides(i, p.lhs[i] == p.rhs[i] ? 0 : -1); break; }
            case 9: case 10: { int j = addcol(); int i = (int)r.below(p.m); p.A[i][j] = pick(r, pal); int t = (int)r.below(4); if (t == 0) { p.lb[j] = -INFINITY; p.ub[j] = INFINITY; } else if (t == 1) { p.lb[j] = 0; p.ub[j] = INFINITY; x0[j] = std::max(0.0, x0[j]); if (!std::isfinite(x0[j])) x0[j] = 1; } sides(i, r.chance(0.6) ? 0 : -1); if (r.chance(0.4)) setcost(j, 0); break; } // singleton column
            case 11: { // dual-fixable column
                int j = addcol(); double s = r.chance(0.5) ? 1 : -1; for (int i = 0; i < p.m; i++) if (r.chance(0.4)) { double v = fabs(pick(r, pal)); bool le = !std::isfinite(p.lhs[i]), ge = !std::isfinite(p.rhs[i]); if (le) p.A[i][j] = s * v; else if (ge) p.A[i][j] = -s * v; }
                if (r.chance(0.4)) { if (s > 0) p.lb[j] = -INFINITY; else p.ub[j] = INFINITY; } for (int i = 0; i < p.m; i++) if (p.A[i][j] != 0) sides(i, std::isfinite(p.lhs[i]) ? 2 : 1); setcost(j, r.chance(0.4) ? 0 : s * r.range(1, 3)); break; }
            case 12: { // forcing or redundant row
                int i = addrow(); bool up = r.chance(0.5); LD b = 0; int cnt = 0; for (int j = 0; j < p.n; j++) if (r.chance(0.5)) { double v = pick(r, pal); double bb = (v > 0) == up ? p.ub[j] : p.lb[j]; if (!std::isfinite(bb)) { v = -v; bb = (v > 0) == up ? p.ub[j] : p.lb[j]; } if (!std::isfinite(bb)) continue; p.A[i][j] = v; b += (LD)v * bb; cnt++; }
                double off = r.chance(0.5) ? 0 : r.range(1, 4); bool forcing = r.chance(0.4);
                if (forcing) { for (int j = 0; j < p.n; j++) if (p.A[i][j] != 0) x0[j] = (p.A[i][j] > 0) == up ? p.ub[j] : p.lb[j]; if (up) p.lhs[i] = (double)b; else p.rhs[i] = (double)b; for (int k = 0; k < p.m; k++) if (k != i) sides(k, p.lhs[k] == p.rhs[k] ? 0 : -1); }
                else { if (up) p.rhs[i] = (double)b + off; else p.lhs[i] = (double)b - off; if (r.chance(0.3)) { if (up) p.lhs[i] = act(i) - r.range(0, 3); else p.rhs[i] = act(i) + r.range(0, 3); } } (void)cnt; break; }
            case 13: { // chain of doubletons
                int len = r.range(2, 4); for (int t = 0; t < len && p.n >= 2; t++) { int j = t % p.n, k = (t + 1) % p.n; int i = addrow(); p.A[i][j] = pick(r, pal); p.A[i][k] = pick(r, pal); sides(i, 0); } break; }
            case 14: { int j = (int)r.below(p.n); p.lb[j] = -INFINITY; p.ub[j] = INFINITY; break; }                 // free column
            case 15: { int j = (int)r.below(p.n); if (std::isfinite(x0[j])) { p.lb[j] = p.ub[j] = x0[j]; } break; }   // fixed column
            case 17: { int i = (int)r.below(p.m), k = addrow(); double f = r.chance(0.5) ? 1 : pick(r, 1); std::vector<int> nz; for (int j = 0; j < p.n; j++) { p.A[k][j] = p.A[i][j] * f; if (p.A[k][j] != 0) nz.push_back(j); } if (!nz.empty()) { int j = nz[r.below(nz.size())]; p.A[k][j] *= 1 + tiny(3, 9); } if (r.chance(0.5)) sides(i, -1); sides(k, -1); break; } // nearly parallel row
            case 18: { int j = (int)r.below(p.n), k = addcol(); double f = r.chance(0.5) ? 1 : pick(r, 1); bool shape = r.chance(0.5); int last = -1; for (int i = 0; i < p.m; i++) { p.A[i][k] = p.A[i][j] * f; if (p.A[i][k] != 0) last = i; } if (shape && last >= 0) p.A[last][k] *= 1 + tiny(3, 9); for (int i = 0; i < p.m; i++) if (p.A[i][k] != 0) sides(i, p.lhs[i] == p.rhs[i] ? 0 : -1); parcols.push_back({k, j}); costv.push_back(f); keepcost.push_back(shape ? -1 - k : -100001 - k); break; } // nearly parallel column
            case 19: { int j = (int)r.below(p.n); double lo = r.range(-3, 3), w = fabs(tiny(5, 10)); p.lb[j] = lo; p.ub[j] = lo + w; x0[j] = lo + (r.chance(0.5) ? 0 : w); break; } // narrow column
            case 20: { int i = (int)r.below(p.m); sides(i, 0); double w = fabs(tiny(5, 10)); p.lhs[i] -= w; if (r.chance(0.5)) p.rhs[i] += w; break; } // narrow row
            case 21: { int i = (int)r.below(p.m); p.A[i][r.below(p.n)] = tiny(6, 12); sides(i, -1); break; } // small coefficient
            case 22: { int i = (int)r.below(p.m); p.A[i][r.below(p.n)] = r.range(1, 9) * 125 * (r.chance(0.5) ? 1 : -1); sides(i, -1); break; } // large coefficient
            case 23: { int j = (int)r.below(p.n); double h = r.range(1, 9) * std::pow(10.0, r.range(3, 5)); if (std::isfinite(p.ub[j])) { p.ub[j] = h; if (p.lb[j] > h) p.lb[j] = 0; } else { p.lb[j] = -h; } if (r.chance(0.3)) x0[j] = h / 2; break; } // far bound
            case 24: { int j = (int)r.below(p.n), e = r.range(8, 10); double lo = r.range(-3, 3), w = std::ldexp(1.0, -e); p.lb[j] = lo; p.ub[j] = lo + w; x0[j] = lo + (r.chance(0.5) ? 0 : w); int i = (int)r.below(p.m); p.A[i][j] = std::ldexp(r.chance(0.5) ? 1.0 : -1.0, r.range(e - 2, e)); sides(i, -1); break; } // narrow column that counts
            case 16: { // implied bound row: small row with tight side
                int i = addrow(); int k = r.range(2, 3); for (int t = 0; t < k; t++) p.A[i][r.below(p.n)] = fabs(pick(r, pal)); sides(i, r.chance(0.5) ? 1 : 3); break; }
        }
    }
    if (kind == GEN_CASCADE) {
        int len = r.range(3, 9); int j = (int)r.below(p.n);
        for (int t = 0; t < len; t++) { int k = addcol(); int i = addrow(); p.A[i][j] = pick(r, pal); p.A[i][k] = pick(r, pal); if (r.chance(0.6)) { p.lb[k] = -INFINITY; p.ub[k] = INFINITY; }
            if (r.chance(0.4)) p.A[i][r.below(p.n)] = pick(r, pal); sides(i, r.chance(0.7) ? 0 : 3); j = k; }
    }
    // reference point may have drifted out of bounds after edits: re-anchor all rows that it violates
    for (int j = 0; j < p.n; j++) { if (!std::isfinite(x0[j])) x0[j] = 0; x0[j] = std::min(std::max(x0[j], p.lb[j]), p.ub[j]); }
    for (int i = 0; i < p.m; i++) { double a = act(i); bool emp = true; for (double v : p.A[i]) if (v != 0) emp = false; if (emp) continue; if (a < p.lhs[i] - 1e-12 || a > p.rhs[i] + 1e-12) { int t = p.lhs[i] == p.rhs[i] ? 0 : !std::isfinite(p.lhs[i]) ? 1 : !std::isfinite(p.rhs[i]) ? 2 : 3; sides(i, t); } }
    // rows without any finite side are legal but rare
    bool freerows = r.chance(0.08); for (int i = 0; i < p.m; i++) if (!std::isfinite(p.lhs[i]) && !std::isfinite(p.rhs[i]) && !(freerows && r.chance(0.5))) p.rhs[i] = act(i) + r.range(0, 4);
    if (freerows) { int i = (int)r.below(p.m); p.lhs[i] = -INFINITY; p.rhs[i] = INFINITY; }
    // objective
    if (r.chance(0.7)) { // dual feasible: c = A'y + z
        std::vector<double> y(p.m, 0); for (int i = 0; i < p.m; i++) { double a = act(i); if (p.lhs[i] == p.rhs[i]) y[i] = r.range(-3, 3); else if (r.chance(0.5)) { if (std::isfinite(p.lhs[i]) && (a == p.lhs[i] || r.chance(0.2))) y[i] = r.range(0, 3); else if (std::isfinite(p.rhs[i])) y[i] = -r.range(0, 3); }
            if (kind == GEN_UNIQUE && y[i] != 0) y[i] += r.range(1, 15) / 32.0; }
        for (int j = 0; j < p.n; j++) { LD c = 0; for (int i = 0; i < p.m; i++) c += (LD)p.A[i][j] * y[i]; bool l = std::isfinite(p.lb[j]), u = std::isfinite(p.ub[j]); if (l && (!u || r.chance(0.5))) c += r.range(0, 3); else if (u) c -= r.range(0, 3); if (kind == GEN_UNIQUE && (l || u)) c += (l ? 1 : -1) * r.range(1, 31) / 64.0; p.c[j] = (double)c; }
    } else for (int j = 0; j < p.n; j++) { p.c[j] = r.chance(0.3) ? 0 : r.range(-4, 4); if (kind == GEN_UNIQUE) p.c[j] += r.range(-31, 31) / 64.0; }
    for (size_t t = 0; t < keepcost.size(); t++) if (keepcost[t] >= 0) p.c[keepcost[t]] = costv[t];
    size_t pc = 0; for (size_t t = 0; t < keepcost.size(); t++) if (keepcost[t] < -100000) { int k = -100001 - keepcost[t]; p.c[k] = p.c[parcols[pc].second] * costv[t] + tiny(4, 10); pc++; } else if (keepcost[t] < 0) { int k = -1 - keepcost[t]; if (r.chance(0.6)) p.c[k] = p.c[parcols[pc].second] * costv[t]; else p.c[k] = p.c[parcols[pc].second] * costv[t] + (r.chance(0.8) ? r.range(0, 2) : -1); pc++; }
    for (double &v : p.c) if (fabs(v) < 1e-11) v = 0;   // rounding noise of the construction
    // perturbation towards infeasibility
    if (r.chance(0.15)) { int i = (int)r.below(p.m); double d = r.range(1, 12); if (finefeat && r.chance(0.5)) d /= 1024; if (r.chance(0.5)) { if (std::isfinite(p.rhs[i])) { p.rhs[i] -= d; if (std::isfinite(p.lhs[i])) { if (p.lhs[i] == p.rhs[i] + d || p.lhs[i] > p.rhs[i]) p.lhs[i] -= d; } } } else if (std::isfinite(p.lhs[i])) { p.lhs[i] += d; if (std::isfinite(p.rhs[i]) && p.lhs[i] > p.rhs[i]) p.rhs[i] += d; } }
    // random permutation of rows and columns so that structure is not position dependent
    std::vector<int> pr(p.m), pcm(p.n); for (int i = 0; i < p.m; i++) pr[i] = i; for (int j = 0; j < p.n; j++) pcm[j] = j;
    for (int i = p.m; i > 1; i--) std::swap(pr[i - 1], pr[r.below(i)]); for (int j = p.n; j > 1; j--) std::swap(pcm[j - 1], pcm[r.below(j)]);
    LP o; o.resize(p.m, p.n); for (int i = 0; i < p.m; i++) { o.lhs[i] = p.lhs[pr[i]]; o.rhs[i] = p.rhs[pr[i]]; for (int j = 0; j < p.n; j++) o.A[i][j] = p.A[pr[i]][pcm[j]]; }
    for (int j = 0; j < p.n; j++) { o.c[j] = p.c[pcm[j]]; o.lb[j] = p.lb[pcm[j]]; o.ub[j] = p.ub[pcm[j]]; }
    if (kind != GEN_UNIQUE && r.chance(0.1)) { int e = r.range(1, 6); bool rows = r.chance(0.7), cols = r.chance(0.6);   // badly scaled by powers of two: the same problem, exactly
        if (rows) for (int i = 0; i < o.m; i++) { double f = std::ldexp(1.0, r.range(-e, e)); for (double &v : o.A[i]) v *= f; o.lhs[i] *= f; o.rhs[i] *= f; }
        if (cols) for (int j = 0; j < o.n; j++) { double f = std::ldexp(1.0, r.range(-e, e)); for (int i = 0; i < o.m; i++) o.A[i][j] *= f; o.c[j] *= f; o.lb[j] /= f; o.ub[j] /= f; x0[pcm[j]] /= f; } }
    if (r.chance(0.02)) { double w = r.chance(0.7) ? r.range(1, 4) : r.chance(0.5) ? 1e6 : 1e-3;   // contradicting bounds or sides
        if (r.chance(0.3)) { int j = (int)r.below(o.n); double v = r.range(-5, 5); o.lb[j] = v + w; o.ub[j] = v; } else if (o.m) { int i = (int)r.below(o.m); double v = std::isfinite(o.rhs[i]) ? o.rhs[i] : r.range(-5, 5); o.rhs[i] = v; o.lhs[i] = v + w; } }
    if (collide) { std::vector<double> x1(p.n); for (int j = 0; j < p.n; j++) x1[j] = x0[pcm[j]]; add_collisions(o, x1, r); }
    return o;
}

static LP permuted(const LP &p, Rng &r) {
    std::vector<int> pr(p.m), pc(p.n); for (int i = 0; i < p.m; i++) pr[i] = i; for (int j = 0; j < p.n; j++) pc[j] = j;
    for (int i = p.m; i > 1; i--) std::swap(pr[i - 1], pr[r.below(i)]); for (int j = p.n; j > 1; j--) std::swap(pc[j - 1], pc[r.below(j)]);
    LP o; o.resize(p.m, p.n); for (int i = 0; i < p.m; i++) { o.lhs[i] = p.lhs[pr[i]]; o.rhs[i] = p.rhs[pr[i]]; for (int j = 0; j < p.n; j++) o.A[i][j] = p.A[pr[i]][pc[j]]; } for (int j = 0; j < p.n; j++) { o.c[j] = p.c[pc[j]]; o.lb[j] = p.lb[pc[j]]; o.ub[j] = p.ub[pc[j]]; } return o;
}
// many small problems side by side, some of them linked: larger than the tests, still decided by the reference solver part by part
LP gen_blocks(Rng &r, int want_n) {
    std::vector<LP> b; std::vector<std::vector<LD>> xs; int M = 0, N = 0, kind = r.chance(0.2) ? GEN_CASCADE : GEN_MIX, odd = r.chance(0.1) ? (int)r.below(want_n) : -1;
    while (N < want_n && M < 2 * want_n + 10) { bool any = odd >= 0 && N >= odd; LP q; LpSol t; for (int g = 0; g < 6; g++) { q = gen_lp(r, kind); t = lp_solve(q); if (q.n && (any || (t.st == LP_OPT && q.m))) break; } if (!q.n) continue; if (any) odd = -1; else if (t.st != LP_OPT || !q.m) continue; if (t.x.size() != (size_t)q.n) t.x.assign(q.n, 0); M += q.m; N += q.n; b.push_back(q); xs.push_back(t.x); }
    LP p; p.resize(M, N); std::vector<double> x; int i0 = 0, j0 = 0; std::vector<int> start;
    for (size_t k = 0; k < b.size(); k++) { const LP &q = b[k]; start.push_back(j0); for (int i = 0; i < q.m; i++) { p.lhs[i0 + i] = q.lhs[i]; p.rhs[i0 + i] = q.rhs[i]; for (int j = 0; j < q.n; j++) p.A[i0 + i][j0 + j] = q.A[i][j]; } for (int j = 0; j < q.n; j++) { p.c[j0 + j] = q.c[j]; p.lb[j0 + j] = q.lb[j]; p.ub[j0 + j] = q.ub[j]; x.push_back((double)xs[k][j]); } i0 += q.m; j0 += q.n; }
    if (b.size() > 1 && r.chance(0.4)) { int L = r.range(1, 2); while (L--) { int i = p.m; p.resize(p.m + 1, p.n); int k = r.below(b.size()), h = (k + 1) % (int)b.size(); double a = 0; for (int t : {k, h}) { int j = start[t] + (int)r.below(b[t].n); p.A[i][j] = pick(r, 1); a += p.A[i][j] * x[j]; } if (r.chance(0.5)) p.rhs[i] = std::ceil(a) + r.range(0, 3); else p.lhs[i] = std::floor(a) - r.range(0, 3); } }
    return permuted(p, r);
}
// one kind of reduction more than a thousand times over: lists inside the library have to grow
LP gen_huge(Rng &r) {
    int t = (int)r.below(10); if (t >= 8) return gen_blocks(r, r.range(1050, 1300));
    LP p; int K = r.range(1010, 1300); int mix = r.range(0, 40); auto sgn = [&] { return r.chance(0.5) ? 1.0 : -1.0; };
    auto box = [&](int j) { p.lb[j] = r.range(-2, 1); p.ub[j] = p.lb[j] + r.range(1, 4); p.c[j] = r.range(-2, 2); };
    auto side = [&](int i, int ty) { double a = 0; for (int j = 0; j < p.n; j++) if (p.A[i][j] != 0) a += p.A[i][j] * p.lb[j]; p.lhs[i] = -INFINITY; p.rhs[i] = INFINITY; if (ty == 0) p.lhs[i] = p.rhs[i] = a; else if (ty == 1) p.rhs[i] = a + r.range(0, 3); else if (ty == 2) p.lhs[i] = a - r.range(0, 3); else { p.lhs[i] = a - r.range(0, 3); p.rhs[i] = a + r.range(1, 3); } };
    switch (t) {
        case 0: p.resize(K, K); for (int j = 0; j < K; j++) { box(j); p.A[j][j] = sgn() * r.range(1, 3); side(j, r.range(0, 3)); } break;                                    // singleton rows
        case 1: p.resize(K, 2 * K); for (int i = 0; i < K; i++) { box(2 * i); box(2 * i + 1); p.A[i][2 * i] = sgn() * r.range(1, 3); p.A[i][2 * i + 1] = sgn() * r.range(1, 3); side(i, 0); } break;   // doubleton equalities
        case 2: p.resize(K, 8); for (int j = 0; j < 8; j++) box(j); for (int i = 0; i < K; i++) { for (int j = 0; j < 8; j++) if (r.chance(0.3)) p.A[i][j] = sgn() * r.range(1, 3); side(i, 1); double w = 0; for (int j = 0; j < 8; j++) w += fabs(p.A[i][j]) * 4; if (!r.chance(mix / 400.0)) p.rhs[i] += w; } break;   // redundant rows
        case 3: p.resize(6, K); for (int j = 0; j < K; j++) { box(j); if (!r.chance(mix / 400.0)) p.ub[j] = p.lb[j]; for (int i = 0; i < 6; i++) if (r.chance(0.3)) p.A[i][j] = sgn() * r.range(1, 3); } for (int i = 0; i < 6; i++) side(i, r.range(1, 3)); break;   // fixed columns
        case 4: { p.resize(K, 6); for (int j = 0; j < 6; j++) box(j); double base[3][6]; for (auto &b : base) for (double &v : b) v = sgn() * r.range(1, 3); for (int i = 0; i < K; i++) { int k = r.below(3); double f = sgn() * std::ldexp(1.0, r.range(-2, 2)); for (int j = 0; j < 6; j++) p.A[i][j] = base[k][j] * f; side(i, r.chance(0.02) ? 0 : r.range(1, 3)); } break; }   // parallel rows
        case 5: { p.resize(6, K); double base[3][6]; for (auto &b : base) for (double &v : b) v = sgn() * r.range(1, 3); for (int j = 0; j < K; j++) { int k = r.below(3); box(j); double f = sgn() * std::ldexp(1.0, r.range(-2, 2)); for (int i = 0; i < 6; i++) p.A[i][j] = base[k][i] * f; p.c[j] = r.chance(0.7) ? f * (k + 1) : f * (k + 1) + r.range(0, 2); } for (int i = 0; i < 6; i++) side(i, r.range(1, 3)); break; }   // parallel columns
        case 6: p.resize(6, K); for (int j = 0; j < K; j++) { box(j); double s = sgn(); for (int i = 0; i < 6; i++) if (r.chance(0.3)) p.A[i][j] = s * r.range(1, 3); p.c[j] = s * r.range(0, 2); } for (int i = 0; i < 6; i++) { side(i, 1); } break;   // dual fixing
        default: p.resize(K, K + 3 * (K / 8 + 1)); for (int j = 0; j < p.n; j++) { box(j); if (j < K) { if (r.chance(0.5)) { p.lb[j] = r.chance(0.5) ? -INFINITY : 0; p.ub[j] = INFINITY; } p.c[j] = 0; } } for (int i = 0; i < K; i++) { double a = 0; for (int q = 0; q < 3; q++) { int j = K + 3 * (i / 8) + (int)r.below(3); if (p.A[i][j] == 0) { p.A[i][j] = sgn() * r.range(1, 3); a += p.A[i][j] * p.lb[j]; } } if (r.chance(0.1)) continue; p.A[i][i] = sgn() * r.range(1, 2); a += p.A[i][i] * (std::isfinite(p.lb[i]) ? p.lb[i] : 0); if (r.chance(0.6)) p.lhs[i] = p.rhs[i] = a; else p.rhs[i] = a + 1; } break;   // singleton columns
    }
    return permuted(p, r);
}
LP gen_inert(Rng &r, unsigned fam) {
    enum { STON = 1, DTON = 2, PROWS = 4, PCOLS = 8, PRIMAL = 16, FINITE = 32, DUALFIX = 64, RELAX = 128 };
    LP p; int m0 = r.range(4, 7), n0 = r.range(5, 9); p.resize(m0, n0); std::vector<double> s(n0), u(n0);   // box [s-u, s+u]
    auto coef = [&](int j) { return (r.chance(0.5) ? 1 : -1) * r.range(17, 31) / u[j]; };
    for (int j = 0; j < n0; j++) { u[j] = std::ldexp(1.0, r.range(0, 3)); s[j] = r.range(-3, 3); p.c[j] = r.range(-5, 5); }
    for (int i = 0; i < m0; i++) for (int j = 0; j < n0; j++) if (r.chance(0.6)) p.A[i][j] = coef(j);
    for (int i = 0; i < m0; i++) for (int g = 0; g < 100; g++) { int c = 0; for (double v : p.A[i]) c += v != 0; if (c >= 4) break; int j = (int)r.below(n0); p.A[i][j] = coef(j); }
    for (int j = 0; j < n0; j++) for (int g = 0; g < 100; g++) { int c = 0; for (int i = 0; i < m0; i++) c += p.A[i][j] != 0; if (c >= 3) break; p.A[r.below(m0)][j] = coef(j); }
    std::vector<int> type(m0); for (int &t : type) t = r.chance(0.25) ? 0 : 3;   // 0 equality, 1 <=, 2 >=, 3 both sides, 4..: gadget rows with special sides
    auto addrow = [&](int t) { p.resize(p.m + 1, p.n); type.push_back(t); return p.m - 1; };
    auto addcol = [&](double ss, double uu, double c) { p.resize(p.m, p.n + 1); s.push_back(ss); u.push_back(uu); p.c[p.n - 1] = c; return p.n - 1; };
    std::vector<int> free_cols; std::vector<std::pair<int, int>> par; std::vector<double> parf;
    auto some = [&](int i, int k) { for (int g = 0; g < 200 && k; g++) { int j = (int)r.below(n0); if (p.A[i][j] == 0) { p.A[i][j] = coef(j); k--; } } };
    if (fam & STON) { int k = r.range(1, 2); for (int t = 0; t < k; t++) { int i = (t + (int)r.below(2)) % m0; bool dup = false; for (int j = n0; j < p.n; j++) if (p.A[i][j] != 0) dup = true; if (dup) continue; if (r.chance(0.7)) type[i] = 0; int j = addcol(r.range(-2, 2), std::ldexp(1.0, r.range(0, 2)), r.chance(0.6) ? 0 : r.range(-2, 2)); p.A[i][j] = (r.chance(0.5) ? 1 : -1) * r.range(17, 24) / u[j]; if (r.chance(0.4)) free_cols.push_back(j); } }
    if (fam & DUALFIX) { double sg = r.chance(0.5) ? 1 : -1; int a = addrow(1), b = addrow(r.chance(0.5) ? 1 : 2); some(a, 4); some(b, 4); int j = addcol(r.range(-2, 2), 1, sg * r.range(0, 3)); p.A[a][j] = sg * r.range(17, 24) ; p.A[b][j] = (type[b] == 1 ? sg : -sg) * r.range(17, 24); }
    if (fam & PCOLS) { int k = r.range(1, 2); for (int t = 0; t < k; t++) { int j = (int)r.below(n0); double f = std::ldexp(r.chance(0.5) ? 1 : -1, r.range(-1, 1)); int h = addcol(r.range(-2, 2), u[j] / fabs(f), r.chance(0.7) ? p.c[j] * f : p.c[j] * f + 1); for (int i = 0; i < p.m; i++) p.A[i][h] = p.A[i][j] * f; } }
    if (fam & PRIMAL) { int i = addrow(4); some(i, r.range(3, 4)); }
    if (fam & (FINITE | RELAX)) { int i = addrow((fam & FINITE) && !((fam & RELAX) && r.chance(0.5)) ? 5 : 6); int j = (int)r.below(n0), a = (j + 1) % n0, b = (j + 2) % n0; p.A[i][j] = 31 / u[j]; p.A[i][a] = 4 / u[a]; p.A[i][b] = -5 / u[b]; }
    if (fam & DTON) { int i = addrow(0), j = (int)r.below(n0), k = (j + 1 + (int)r.below(n0 - 1)) % n0; p.A[i][j] = (r.chance(0.5) ? 4 : -4) / u[j]; p.A[i][k] = (r.chance(0.5) ? 4 : -4) / u[k]; }
    // sides: the box centre is feasible, no side is redundant
    std::vector<double> cen(p.m), M(p.m); auto sides = [&](int i) { double c = 0, w = 0; for (int j = 0; j < p.n; j++) { c += p.A[i][j] * s[j]; w += fabs(p.A[i][j]) * u[j]; } double k = std::floor(w * (0.1 + 0.3 * r.unit()) * 16) / 16; int t = type[i]; p.lhs[i] = -INFINITY; p.rhs[i] = INFINITY;
        if (t == 0) p.lhs[i] = p.rhs[i] = c; else if (t == 1) p.rhs[i] = c + k; else if (t == 2) p.lhs[i] = c - k; else if (t == 3) { p.lhs[i] = c - k; p.rhs[i] = c + k; } else if (t == 4) { if (r.chance(0.5)) p.rhs[i] = c + w + 2; else p.lhs[i] = c - w - 2; } else { double q = t == 5 ? 15 : 22; p.lhs[i] = c - q; p.rhs[i] = c + q; } };
    for (int i = 0; i < p.m; i++) sides(i);
    if (fam & PROWS) { int k = r.range(1, 2); for (int t = 0; t < k; t++) { int i = (int)r.below(m0); double f = std::ldexp(r.chance(0.5) ? 1 : -1, r.range(-2, 2)); int h = addrow(type[i]); for (int j = 0; j < p.n; j++) p.A[h][j] = p.A[i][j] * f; sides(h); } }
    for (int j = 0; j < p.n; j++) { p.lb[j] = s[j] - u[j]; p.ub[j] = s[j] + u[j]; } for (int j : free_cols) { if (r.chance(0.7)) p.lb[j] = -INFINITY; if (p.lb[j] == -INFINITY ? r.chance(0.7) : true) p.ub[j] = INFINITY; }
    std::vector<int> pr(p.m), pc(p.n); for (int i = 0; i < p.m; i++) pr[i] = i; for (int j = 0; j < p.n; j++) pc[j] = j;
    for (int i = p.m; i > 1; i--) std::swap(pr[i - 1], pr[r.below(i)]); for (int j = p.n; j > 1; j--) std::swap(pc[j - 1], pc[r.below(j)]);
    LP o; o.resize(p.m, p.n); for (int i = 0; i < p.m; i++) { o.lhs[i] = p.lhs[pr[i]]; o.rhs[i] = p.rhs[pr[i]]; for (int j = 0; j < p.n; j++) o.A[i][j] = p.A[pr[i]][pc[j]]; } for (int j = 0; j < p.n; j++) { o.c[j] = p.c[pc[j]]; o.lb[j] = p.lb[pc[j]]; o.ub[j] = p.ub[pc[j]]; }
    return o;
}
