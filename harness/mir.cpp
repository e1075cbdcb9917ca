#include "prob.hpp"
#ifdef MIR2
#include "CglMixedIntegerRounding2.hpp"
#define CglMixedIntegerRounding CglMixedIntegerRounding2
#else
#include "CglMixedIntegerRounding.hpp"
#endif
static const char *MSG = "mixed integer rounding cut keeps every feasible point";
static void xs(Prob &p, int g) { for (int j = 0; j < p.n; j++) { p.x[j] = vs_real("x", -3, 6, g); if (p.lo[j] > -1e30) vs_assume(p.x[j] >= p.lo[j]); if (p.up[j] < 1e30) vs_assume(p.x[j] <= p.up[j]); } }
// one of k fixed values, moved into the bounds of the column
static void xc(Prob &p, int j, int k) { static const double T[] = {0.5, 1.75, 0, 1}; double v = pickFrom("x", T, k); if (v < p.lo[j]) v = p.lo[j] + 0.25; if (v > p.up[j]) v = p.up[j]; p.x[j] = v; }
static void after(Prob &p, SymSolver &si, OsiCuts &cs) {
  vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated");
  for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &c = cs.rowCut(i); vs_check(dotAt(c.row(), &p.x[0]) > c.ub(), "mixed integer rounding cut is violated by the current solution"); }
  p.point(-3, 6, -3); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG);
}
static void params(CglMixedIntegerRounding &g) { g.setCRITERION_(pickInt("crit", 1, 3)); g.setMULTIPLY_(pickInt("mult", 0, 1)); }
static void sense(Prob &p, int i, double b, int hi) { int s = pickInt("sense", 0, hi); p.rl[i] = s == 0 ? -INF : b; p.ru[i] = s == 1 ? INF : b; if (s == 3) p.ru[i] = b + 2; }
extern "C" void vs_main() {
#if SC == 1 // one mixed row of every sense: two integers, one continuous column, all bound kinds
  static const double A[] = {-2, 1, 3}, B[] = {0.5, 2.5, -1.25, 4}, C[] = {-1, 0.5}, K[][5] = {{0, 1, 1, 0, INF}, {0, 3, INF, 0, 2}, {-1, 3, 1, -1, 2}, {1, 3, 3, -INF, 2}, {0, INF, 3, -INF, INF}, {0, 3, 1, -1, INF}, {-1, 3, INF, 0, INF}};
  Prob p(3, 1); const double *k = K[pickInt("k", 0, 6)]; p.lo[0] = k[0]; p.up[0] = k[1]; p.lo[1] = 0; p.up[1] = k[2]; p.lo[2] = k[3]; p.up[2] = k[4]; p.A(0, 0) = 2; p.A(0, 1) = pickFrom("a", A, 3); p.A(0, 2) = pickFrom("c", C, 2); for (int j = 0; j < 3; j++) p.isint[j] = j < 2; sense(p, 0, pickFrom("b", B, 4), 3);
  xc(p, 0, 3); xc(p, 1, 2); xc(p, 2, 2); SymSolver si; p.load(si); OsiCuts cs; CglMixedIntegerRounding g; g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 2 // variable bounds: continuous columns bounded by integer columns, in any direction, used by a continuous or mixed row
  static const double Y[] = {-2, 3, 1}, B[] = {1.5, 2.5, -1}, C[] = {-1, 1};
  Prob p(4, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) p.A(i, j) = 0; // columns: y0 y1 integer, s2 s3 continuous
  for (int j = 0; j < 4; j++) { p.isint[j] = j < 2; p.lo[j] = 0; p.up[j] = j < 2 ? 2 : INF; } if (pickInt("cu", 0, 1)) p.up[2] = 4; p.lo[3] = pickInt("neg", 0, 1) ? -INF : 0; p.up[0] = pickInt("bin", 0, 1) ? 1 : INF;
  for (int i = 0; i < 2; i++) { p.A(i, i) = pickFrom("yc", Y, i ? 1 : 3); p.A(i, 2 + i) = i ? 1 : pickFrom("xc", C, 2); sense(p, i, 0, i ? 0 : 2); }
  p.A(2, 2) = 1; p.A(2, 3) = pickFrom("rc", C, 2); p.A(2, 0) = pickInt("mix", 0, 1) ? 1 : 0; sense(p, 2, pickFrom("b", B, 3), 1); xc(p, 0, 2); xc(p, 1, 1); xc(p, 2, 3); xc(p, 3, 2);
  SymSolver si; p.load(si); OsiCuts cs; CglMixedIntegerRounding g; g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 3 // aggregation of up to three rows over shared continuous columns
  static const double B[] = {1.5, 2.25, -0.5}, C[] = {-1, 2}, A[] = {1, -3};
  Prob p(5, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) p.A(i, j) = 0; for (int j = 0; j < 5; j++) { p.isint[j] = j < 2; p.lo[j] = 0; p.up[j] = j < 2 ? 3 : 4; } p.up[1] = 1;
  p.A(0, 0) = 2; p.A(0, 2) = pickFrom("c", C, 2); p.A(1, 1) = pickFrom("a", A, 2); p.A(1, 2) = pickFrom("c", C, 2); p.A(1, 3) = 1; p.A(2, 3) = pickFrom("c", C, 2); p.A(2, 0) = 3; p.A(2, 4) = pickInt("s4", 0, 1);
  for (int i = 0; i < 3; i++) sense(p, i, pickFrom("b", B, i == 0 ? 3 : i == 1 ? 2 : 1), i == 0 ? 2 : 1); xc(p, 0, 2); xc(p, 1, 1); xc(p, 2, 2); xc(p, 3, 2); p.x[4] = 0; SymSolver si; p.load(si); OsiCuts cs; CglMixedIntegerRounding g; g.setMAXAGGR_(pickInt("agg", 2, 3)); g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 4 // integer rows; upper bounds that are fractional, fixed columns, two rows
  static const double A[] = {-2, 3, 5}, B[] = {2.5, 4, 7}, U[] = {1, 2.5, 3, INF};
  Prob p(3, 2); for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) p.A(i, j) = i ? (j < 2 ? 2 : 0) : j ? pickFrom("a", A, 3) : 3; sense(p, i, i ? 3 : pickFrom("b", B, 3), i ? 0 : 2); } for (int j = 0; j < 3; j++) { p.isint[j] = 1; p.lo[j] = 0; p.up[j] = j == 2 ? 2.5 : pickFrom("u", U, 4); } int fx = pickInt("fix", -2, 1); if (fx > -2) p.lo[2] = p.up[2] = fx;
  xc(p, 0, 2); xc(p, 1, 2); xc(p, 2, 1); SymSolver si; p.load(si); OsiCuts cs; CglMixedIntegerRounding g; g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 6 // every relaxation point, few rows
  static const double A[] = {-2, 3}, B[] = {0.5, 2.5}, C[] = {-1, 0.5};
  Prob p(3, 1); p.lo[0] = 0; p.up[0] = pickInt("inf", 0, 1) ? INF : 2; p.lo[1] = 0; p.up[1] = 1; p.lo[2] = 0; p.up[2] = INF; p.A(0, 0) = 2; p.A(0, 1) = pickFrom("a", A, 2); p.A(0, 2) = pickFrom("c", C, 2); for (int j = 0; j < 3; j++) p.isint[j] = j < 2; sense(p, 0, pickFrom("b", B, 2), 2);
  xs(p, -2); SymSolver si; p.load(si); OsiCuts cs; CglMixedIntegerRounding g; g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 7 // criteria, rows also taken with their sign changed, aggregation with variable bounds
  static const double B[] = {1.5, 2.5, -0.5}, C[] = {-1, 2};
  Prob p(5, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) p.A(i, j) = 0; for (int j = 0; j < 5; j++) { p.isint[j] = j < 2; p.lo[j] = 0; p.up[j] = j < 2 ? 3 : INF; } p.up[1] = 1;
  p.A(0, 0) = -2; p.A(0, 2) = 1; p.rl[0] = -INF; p.ru[0] = 0; p.A(1, 2) = pickFrom("c", C, 2); p.A(1, 1) = 3; p.A(1, 3) = 1; p.A(2, 3) = pickFrom("c", C, 2); p.A(2, 4) = 1; p.A(2, 0) = pickInt("m", 0, 1);
  for (int i = 1; i < 3; i++) sense(p, i, pickFrom("b", B, 3), i == 1 ? 2 : 1); xc(p, 0, 2); xc(p, 1, 1); xc(p, 2, 2); xc(p, 3, 2); p.x[4] = 0; SymSolver si; p.load(si); OsiCuts cs; CglMixedIntegerRounding g; params(g); g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 5 // preprocessing kept between calls, copies, changed problems
  static const double B[] = {2.5, 3.5}; Prob p(3, 2); for (int i = 0; i < 2; i++) { p.A(i, 0) = 2; p.A(i, 1) = i ? 3 : 1; p.A(i, 2) = -1; p.rl[i] = -INF; p.ru[i] = pickFrom("b", B, 2); } for (int j = 0; j < 3; j++) { p.isint[j] = j < 2; p.lo[j] = 0; p.up[j] = 3; } static const double XV[] = {0, 0.5, 1.25}; for (int j = 0; j < 3; j++) p.x[j] = pickFrom("x", XV, j == 2 ? 1 : 3); SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); si.rl[1] = p.rl[1] = -1; si.setSense(1);
  CglMixedIntegerRounding g; int pre = pickInt("pre", -1, 1); g.setDoPreproc(pre); OsiCuts c1; g.generateCuts(si, c1); OsiCuts cs; int how = pickInt("how", 0, 4);
  if (how == 0) { g.generateCuts(si, cs); vs_check(cs.sizeRowCuts() == c1.sizeRowCuts(), "the same call gives the same cuts"); }
  else if (how == 1) { CglMixedIntegerRounding h(g); h.generateCuts(si, cs); vs_check(cs.sizeRowCuts() == c1.sizeRowCuts(), "a copy gives the same cuts"); }
  else if (how == 2) { CglMixedIntegerRounding h; OsiCuts t; h.generateCuts(si, t); h = g; h.generateCuts(si, cs); vs_check(cs.sizeRowCuts() == c1.sizeRowCuts(), "an assigned generator gives the same cuts"); }
  else { p.ru[0] = p.ru[0] - 1; p.A(1, 1) = 1; if (how == 4) { Prob q(2, 1); q.A(0, 0) = 2; q.A(0, 1) = -1; q.rl[0] = -INF; q.ru[0] = 1.5; for (int j = 0; j < 2; j++) { q.isint[j] = j < 1; q.lo[j] = 0; q.up[j] = 3; q.x[j] = p.x[j]; } p = q; } SymSolver s2; p.load(s2); if (pre != 1) g.refreshSolver(&s2); s2.writes = 0; g.generateCuts(s2, cs); after(p, s2, cs); vs_end(); }
  after(p, si, cs);
#endif
}
