#include "prob.hpp"
#include "CglAllDifferent.hpp"
static const char *MSG = "bounds or infeasibility derived from all-different sets keep every solution";
extern "C" void vs_main() {
#if SC == 1 || SC == 2 || SC == 4
#if SC == 1 // one set of three out of four columns, in any order
  const int n = 4, ns = 1; int start[] = {0, 3}; int which[3]; for (int i = 0; i < 3; i++) { which[i] = i == 0 ? pickInt("which", 0, 3) : pickInt("which", 0, 1) + (i == 2 ? 2 : 0); for (int k = 0; k < i; k++) vs_assume(which[k] != which[i]); }
#elif SC == 2 // two overlapping sets
  const int n = 4, ns = 2; int start[] = {0, 3, 5}; int which[5] = {1, 3, 2, 0, 0}; which[0] = pickInt("w0", 0, 1); which[3] = pickInt("w3", 2, 3); which[4] = pickInt("w4", 0, 1);
#else // three sets
  const int n = 5, ns = 3; int start[] = {0, 2, 4, 7}; int which[7] = {4, 0, 0, 3, 3, 1, 4};
#endif
  Prob p(n, 1); for (int j = 0; j < n; j++) { p.isint[j] = 1; p.A(0, j) = 0; bool in = false; for (int i = 0; i < start[ns]; i++) if (which[i] == j) in = true;
    if (in) { p.lo[j] = pickInt("lo", -1, SC == 1 ? 1 : 0); p.up[j] = p.lo[j] + pickInt("w", 0, SC == 1 ? 3 : 2); } else { p.lo[j] = 5; p.up[j] = 9; } p.x[j] = p.lo[j]; } p.rl[0] = -INF; p.ru[0] = INF;
  SymSolver si; p.load(si); OsiCuts cs; CglAllDifferent g0(ns, start, which); CglAllDifferent *g = dynamic_cast<CglAllDifferent *>(pickInt("clone", 0, 1) ? g0.clone() : new CglAllDifferent(g0)); g->setLogLevel(0); g->generateCuts(si, cs); delete g;
  vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); if (cs.sizeRowCuts()) vs_reach("infeasible"); if (cs.sizeColCuts()) vs_reach("tightened");
  p.point(-1, 9); bool diff = true; for (int s = 0; s < ns; s++) for (int i = start[s]; i < start[s + 1]; i++) for (int k = start[s]; k < i; k++) diff = vAnd(diff, p.y[which[i]] != p.y[which[k]]); vs_assume(diff);
  vs_check(cs.sizeRowCuts() == 0, "infeasibility is reported only when no solution exists"); p.checkCuts(cs, 1e-6, MSG);
#elif SC == 3 // no sets at all
  Prob p(2, 1); for (int j = 0; j < 2; j++) { p.lo[j] = 0; p.up[j] = vs_int("u", 0, 2); p.isint[j] = 1; p.x[j] = 0; p.A(0, j) = 0; } p.rl[0] = -INF; p.ru[0] = INF; SymSolver si; p.load(si); OsiCuts cs; int st[1] = {0};
  int k = pickInt("ctor", 0, 2); CglAllDifferent d; CglAllDifferent e(0, st, (const int *)NULL); CglAllDifferent c(d); (k == 0 ? d : k == 1 ? e : c).generateCuts(si, cs); vs_check(cs.sizeCuts() == 0, "no sets, no cuts"); vs_reach("empty");
#elif SC == 5 // domains of any width: around the limit of the enumeration, too wide to look at, infinite
  static const double L[] = {0, 3, -2, -INF, 1e9}, U[] = {1, 28, 29, 30, 31, 33, 5e6, 2e9, INF}; const int n = 4; int start[] = {0, 2, 4}; int which[] = {0, 1, 3, 2}; Prob p(n, 1); for (int j = 0; j < n; j++) { p.isint[j] = 1; p.A(0, j) = 0; p.lo[j] = 0; p.up[j] = j == 1 || j == 2 ? 0 : 1; }
  int w = pickInt("set", 0, 1); p.lo[w ? 3 : 0] = pickFrom("lo", L, 5); p.up[w ? 3 : 0] = pickFrom("up", U, 9); vs_assume(p.lo[w ? 3 : 0] <= p.up[w ? 3 : 0]); if (pickInt("both", 0, 1)) { p.lo[w ? 2 : 1] = 0; p.up[w ? 2 : 1] = pickFrom("up2", U + 1, 3); } p.rl[0] = -INF; p.ru[0] = INF; for (int j = 0; j < n; j++) p.x[j] = 0;
  SymSolver si; p.load(si); OsiCuts cs; long b = vs_live_bytes(); { CglAllDifferent g(2, start, which); OsiCuts c2; g.generateCuts(si, c2); } vs_check(vs_live_bytes() == b, "generating releases all its memory"); CglAllDifferent g(2, start, which); g.generateCuts(si, cs); obsCuts(cs); if (cs.sizeColCuts()) vs_reach("tightened");
  p.point(-3, 40); vs_assume(vAnd(p.y[0] != p.y[1], p.y[2] != p.y[3])); vs_check(cs.sizeRowCuts() == 0, "infeasibility is reported only when no solution exists"); p.checkCuts(cs, 1e-6, MSG);
#endif
}
