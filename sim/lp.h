// LP data, independent reference solver, generator.
#pragma once
#include "rt.h"
#include <cmath>
typedef long double LD;
struct LP {
    int m = 0, n = 0;
    std::vector<std::vector<double>> A;      // dense, 0 = absent
    std::vector<double> lhs, rhs, c, lb, ub;
    void resize(int mm, int nn);
    size_t nnz() const;
    bool operator==(const LP &o) const;
};
enum LpStatus { LP_OPT = 0, LP_INFEAS, LP_UNBND, LP_UNSURE };
struct LpSol {
    LpStatus st = LP_UNSURE; LD obj = 0; std::vector<LD> x, y, z;   // z = c - A'y ; y>=0 at lhs, y<=0 at rhs
    bool unique = false;     // certified: nondegenerate basis, strictly complementary
    LD infeas = 0;
};
LpSol lp_solve(const LP &p);
// true if a point satisfies every equality exactly and every inequality and bound with a margin of 1e-4 (relative to the bound)
bool lp_feasible_with_margin(const LP &p);
// verifies an optimal pair with tolerance; returns worst violation
LD lp_pair_error(const LP &p, const std::vector<LD> &x, const std::vector<LD> &y, bool absgap = false);
// another optimal primal-dual pair of p (random optimal face point); falls back to s
LpSol lp_alternative(const LP &p, const LpSol &s, Rng &r, int kind);

enum { GEN_MIX = 0, GEN_UNIQUE = 1, GEN_BIG = 2, GEN_CASCADE = 3, GEN_WIDE = 4, GEN_EXTREME = 5, GEN_COLLIDE = 6, GEN_BLOCKS = 7, GEN_HUGE = 8, GEN_LONG = 9 };   // GEN_WIDE: many short rows and columns, too big for the reference solver
LP gen_lp(Rng &r, int kind);
LP gen_blocks(Rng &r, int want_n);
LP gen_huge(Rng &r);
// a problem on which only the families in the mask (bit = position in SetSpec::b) find something to do
LP gen_inert(Rng &r, unsigned families);
