#include "prob.hpp"
#include "CglResidualCapacity.hpp"
static const char *MSG = "residual capacity cut keeps every feasible point";
static void xs(Prob &p, int g) { for (int j = 0; j < p.n; j++) { p.x[j] = vs_real("x", -2, 6, g); if (p.lo[j] > -1e30) vs_assume(p.x[j] >= p.lo[j]); if (p.up[j] < 1e30) vs_assume(p.x[j] <= p.up[j]); } }
static void after(Prob &p, SymSolver &si, OsiCuts &cs, double tol) {
  vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated");
  for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &c = cs.rowCut(i); vs_check(dotAt(c.row(), &p.x[0]) > c.ub() + tol - 1e-7, "residual capacity cut is violated by the current solution by the configured amount"); }
  p.point(-3, 6, -3); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG);
}
static void sense(Prob &p, int i, double b, int hi, double sg) { int s = pickInt("sense", 0, hi); p.rl[i] = s == 0 ? -INF : b; p.ru[i] = s == 1 ? INF : b; if (s == 3) p.ru[i] = b + 2; if (s == 1 && sg > 0) { } }
extern "C" void vs_main() {
#if SC == 1 // one row of every sense, two columns taken as continuous and two capacity columns, all bound kinds
  static const double A[] = {-1, 1, 2.5}, B[] = {0, 0.5, -1.25, 3}, D[] = {2, 3}, U[] = {2, 0, INF}, L[] = {0, -1, 1}, ZL[] = {0, -2};
  Prob p(4, 1); double sg = pickInt("flip", 0, 1) ? -1 : 1; for (int j = 0; j < 2; j++) { p.A(0, j) = sg * (j ? pickFrom("a", A, 3) : 1); p.isint[j] = j ? pickInt("int", 0, 1) : 0; p.lo[j] = j ? 0 : pickFrom("l", L, 3); p.up[j] = j ? pickFrom("u", U, 3) : 2; }
  for (int j = 2; j < 4; j++) { p.A(0, j) = -sg * (j == 2 ? 2 : pickFrom("d", D, 2)); p.isint[j] = 1; p.lo[j] = j == 2 ? pickFrom("zl", ZL, 2) : 0; p.up[j] = j == 2 ? 3 : INF; }
  sense(p, 0, sg * pickFrom("b", B, 4), 3, sg); xs(p, -2); vs_assume(p.x[3] <= 1); SymSolver si; p.load(si); OsiCuts cs; CglResidualCapacity g; g.generateCuts(si, cs); after(p, si, cs, 1e-4);
#elif SC == 2 // three rows sharing columns, free and range rows, parameters, matrices with gaps
  static const double B[] = {0.5, 1.25}, T[] = {1e-4, 0.5}; Prob p(5, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) p.A(i, j) = 0; for (int j = 0; j < 5; j++) { p.isint[j] = j > 2; p.lo[j] = 0; p.up[j] = j > 2 ? 4 : 1.5; }
  p.A(0, 0) = 1; p.A(0, 1) = pickInt("neg", 0, 1) ? -1 : 1; p.A(0, 3) = -2; sense(p, 0, pickFrom("b", B, 2), 3, 1); p.A(1, 1) = -1; p.A(1, 2) = -1; p.A(1, 3) = 3; p.A(1, 4) = pickInt("eq", 0, 1) ? 3 : 2; sense(p, 1, pickFrom("b", B, 1), 3, 1); p.A(2, 0) = 1; p.A(2, 2) = 1; p.A(2, 4) = -1; p.rl[2] = -INF; p.ru[2] = INF; if (pickInt("third", 0, 1)) p.ru[2] = 0;
  static const double V[] = {0.25, 1.5}, W[] = {0.5, 0.875}; for (int j = 0; j < 3; j++) p.x[j] = pickFrom("v", V, 2); p.x[3] = pickFrom("w", W, 2); p.x[4] = vs_real("x", 0, 1, -2); SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); OsiCuts cs; CglResidualCapacity g; double t = pickFrom("tol", T, 2); g.setTolerance(t); vs_check(g.getTolerance() == t, "tolerance is what was set"); g.setDoPreproc(pickInt("pre", -1, 1)); g.generateCuts(si, cs); if (cs.sizeRowCuts() > 1) vs_reach("two cuts"); after(p, si, cs, t);
#elif SC == 3 // kept preprocessing: repeated calls, copies, tightened bounds, another problem
  static const double B[] = {0.5, 1.25}; Prob p(4, 2); for (int i = 0; i < 2; i++) { p.A(i, 0) = i ? -1 : 1; p.A(i, 1) = 1; p.A(i, 2) = -2; p.A(i, 3) = i ? -2 : 0; p.rl[i] = -INF; p.ru[i] = pickFrom("b", B, 2); } for (int j = 0; j < 4; j++) { p.isint[j] = j > 1; p.lo[j] = 0; p.up[j] = 2; } static const double XV[] = {0.25, 0.75, 1.5}; for (int j = 0; j < 4; j++) p.x[j] = pickFrom("x", XV, j == 3 ? 1 : 3);
  SymSolver si; p.load(si); CglResidualCapacity g(1e-6); int pre = pickInt("pre", -1, 1); g.setDoPreproc(pre); OsiCuts c1, cs; g.generateCuts(si, c1); int how = pickInt("how", 0, 4);
  if (how == 0) { g.generateCuts(si, cs); checkSameCuts(c1, cs, "the same call gives the same cuts", 0, 0); }
  else if (how == 1) { CglResidualCapacity h(g); h.generateCuts(si, cs); checkSameCuts(c1, cs, "a copy gives the same cuts", 0, 0); }
  else if (how == 2) { CglResidualCapacity h; OsiCuts t; h.generateCuts(si, t); h = g; h = h; h.generateCuts(si, cs); checkSameCuts(c1, cs, "an assigned generator gives the same cuts", 0, 0); }
  else if (how == 3) { int j = pickInt("col", 0, 3); if (pickInt("up", 0, 1)) { p.up[j] = p.x[j] > 1 ? 1 : 0; if (p.x[j] > p.up[j]) p.x[j] = p.up[j]; } else { p.lo[j] = p.x[j] > 1 ? 2 : 1; if (p.x[j] < p.lo[j]) p.x[j] = p.lo[j]; } SymSolver s2; p.load(s2); g.generateCuts(s2, cs); after(p, s2, cs, 1e-4); vs_end(); }
  else { Prob q(3, 3); for (int i = 0; i < 3; i++) { q.A(i, 0) = -1; q.A(i, 1) = i ? -1.5 : 1; q.A(i, 2) = i ? 2 : 1; q.rl[i] = i ? 0.5 : -INF; q.ru[i] = i ? INF : 3; } for (int j = 0; j < 3; j++) { q.isint[j] = j > 1; q.lo[j] = 0; q.up[j] = 2; q.x[j] = p.x[j]; } p = q; SymSolver s2; p.load(s2); if (pre != 1) g.refreshPrep(); g.generateCuts(s2, cs); after(p, s2, cs, 1e-4); vs_end(); }
  after(p, si, cs, 1e-4);
#endif
}
