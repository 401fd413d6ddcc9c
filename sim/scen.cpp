#include "scen.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
static std::string hf(double v) { char b[64]; if (std::isinf(v)) return v > 0 ? "inf" : "-inf"; if (v == (long long)v && fabs(v) < 1e15) snprintf(b, sizeof b, "%lld", (long long)v); else snprintf(b, sizeof b, "%a", v); return b; }
std::string Scenario::text() const {
    std::ostringstream o;
    o << "pslp-replay 1\nproperty " << prop << "\nseed " << seed << " index " << index << "\n";
    const SimCfg &c = cfg;
    o << "cfg rseed " << c.rseed << " fill " << c.fill << " pad " << c.pad << " tie " << c.tie << " fail_at " << c.fail_at << " sticky " << c.sticky << " fail_big " << c.fail_big << " thread_fail " << c.thread_fail
      << " t0 " << c.t0_ns << " tick " << c.tick_ns << " pace " << c.ns_per_kstep << " strat " << c.strat << " gap " << c.gap << " pct_d " << c.pct_d << " pct_len " << c.pct_len << " max_steps " << c.max_steps << " mem_fatal " << c.mem_fatal << "\n";
    o << "jumps " << c.jumps.size(); for (auto &j : c.jumps) o << " " << j.read << ":" << j.ns; o << "\n";
    o << "trace " << c.trace.size(); for (auto &t : c.trace) o << " " << t.step << ":" << t.tid; o << "\n";
    o << "args " << args.size(); for (auto a : args) o << " " << a; o << "\n";
    for (auto &s : sets) { o << "settings"; for (int i = 0; i < 8; i++) o << " " << s.b[i]; o << " " << s.max_shift << " " << hf(s.max_time) << " " << s.verbose << "\n"; }
    for (auto &p : lps) {
        o << "lp " << p.m << " " << p.n << "\n";
        for (int i = 0; i < p.m; i++) { o << "row " << hf(p.lhs[i]) << " " << hf(p.rhs[i]); for (int j = 0; j < p.n; j++) if (p.A[i][j] != 0) o << " " << j << ":" << hf(p.A[i][j]); o << "\n"; }
        for (int j = 0; j < p.n; j++) o << "col " << hf(p.c[j]) << " " << hf(p.lb[j]) << " " << hf(p.ub[j]) << "\n";
    }
    o << "end\n"; return o.str();
}
bool Scenario::parse(const std::string &t, Scenario &s) {
    std::istringstream in(t); std::string line, w; s = Scenario(); int row = 0, col = 0; bool ok = false;
    while (std::getline(in, line)) {
        std::istringstream l(line); if (!(l >> w) || w[0] == '#') continue;
        auto num = [&]() { std::string x; l >> x; return strtod(x.c_str(), nullptr); };
        if (w == "property") l >> s.prop;
        else if (w == "seed") { l >> s.seed >> w >> s.index; }
        else if (w == "cfg") { SimCfg &c = s.cfg; std::string k; while (l >> k) { std::string v; l >> v; int64_t x = strtoll(v.c_str(), nullptr, 10);
                if (k == "rseed") c.rseed = strtoull(v.c_str(), nullptr, 10); else if (k == "fill") c.fill = (int)x; else if (k == "pad") c.pad = (int)x; else if (k == "tie") c.tie = (int)x; else if (k == "fail_at") c.fail_at = x; else if (k == "sticky") c.sticky = (int)x;
                else if (k == "fail_big") c.fail_big = x; else if (k == "thread_fail") c.thread_fail = (int)x; else if (k == "t0") c.t0_ns = x; else if (k == "tick") c.tick_ns = x; else if (k == "pace") c.ns_per_kstep = x; else if (k == "strat") c.strat = (int)x;
                else if (k == "gap") c.gap = (int)x; else if (k == "pct_d") c.pct_d = (int)x; else if (k == "pct_len") c.pct_len = x; else if (k == "max_steps") c.max_steps = (uint64_t)x; else if (k == "mem_fatal") c.mem_fatal = (int)x; } }
        else if (w == "jumps" || w == "trace") { size_t n; l >> n; for (size_t i = 0; i < n; i++) { std::string v; l >> v; long long a, b; if (sscanf(v.c_str(), "%lld:%lld", &a, &b) != 2) return false; if (w == "jumps") s.cfg.jumps.push_back({a, b}); else s.cfg.trace.push_back({(uint64_t)a, (int)b}); } }
        else if (w == "args") { size_t n; l >> n; for (size_t i = 0; i < n; i++) { int64_t a; l >> a; s.args.push_back(a); } }
        else if (w == "settings") { SetSpec q; for (int &b : q.b) l >> b; l >> q.max_shift; q.max_time = num(); l >> q.verbose; s.sets.push_back(q); }
        else if (w == "lp") { int m, n; l >> m >> n; LP p; p.resize(m, n); s.lps.push_back(p); row = col = 0; }
        else if (w == "row") { LP &p = s.lps.back(); p.lhs[row] = num(); p.rhs[row] = num(); std::string e; while (l >> e) { size_t k = e.find(':'); p.A[row][atoi(e.c_str())] = strtod(e.c_str() + k + 1, nullptr); } row++; }
        else if (w == "col") { LP &p = s.lps.back(); p.c[col] = num(); p.lb[col] = num(); p.ub[col] = num(); col++; }
        else if (w == "end") ok = true;
    }
    return ok;
}
