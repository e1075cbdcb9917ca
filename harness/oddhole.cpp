#include "prob.hpp"
#include "CglOddHole.hpp"
static const char *MSG = "odd hole cut keeps every integer-feasible point";
static void binaries(Prob &p, int k, int g) { for (int j = 0; j < k; j++) { p.lo[j] = 0; p.up[j] = 1; p.isint[j] = 1; p.x[j] = vs_real("x", 0, 1, g); } }
static void after(Prob &p, SymSolver &si, OsiCuts &cs, double minViol, int maxEntries) {
  vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated");
  for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &c = cs.rowCut(i); double s = dotAt(c.row(), &p.x[0]); if (c.ub() < 1e30) { vs_reach("packing cut"); vs_check(s >= c.ub() + minViol - 1e-6, "odd hole cut is violated by the current solution by the configured amount"); vs_check(c.row().getNumElements() <= maxEntries, "cut is no longer than the configured maximum"); }
    else { vs_reach("covering cut"); vs_check(s <= c.lb() - minViol + 1e-6, "odd hole cut is violated by the current solution by the configured amount"); vs_check(c.row().getNumElements() <= maxEntries, "cut is no longer than the configured maximum"); } }
  p.point(-1, 3); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG);
}
static void range(Prob &p, int i) { int s = pickInt("sense", 0, 3); static const double R[] = {0, 1, 2}; double b = pickFrom("rhs", R, 3); p.rl[i] = s == 0 ? -INF : b; p.ru[i] = s == 1 ? INF : b; if (s == 3) p.ru[i] = b + 1; }
extern "C" void vs_main() {
#if SC == 1 // triangle plus a column that may be fixed, with any coefficient; every row sense, right hand sides net of the column
  Prob p(4, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p.A(i, j) = j != i ? 1 : 0; binaries(p, 3, -3);
  static const double C[] = {-1, 0, 1, 2}; static const double F[] = {-1, 0, 1}; static const double X[4][3] = {{0.5, 0.5, 0.5}, {0.375, 0.5, 0.25}, {0.625, 0.5, 0.5}, {0.25, 1, 0.5}};
  double c = pickFrom("c", C, 4); for (int i = 0; i < 3; i++) p.A(i, 3) = i == 2 ? pickFrom("c2", C, 4) : c;
  p.lo[3] = pickFrom("lo", F, 3); p.up[3] = pickInt("fixed", 0, 1) ? p.lo[3] : p.lo[3] + 1; p.isint[3] = pickInt("int", 0, 1); p.x[3] = p.lo[3]; int w = pickInt("values", 0, 3); for (int j = 0; j < 3; j++) p.x[j] = X[w][j];
  static const double L[] = {-INF, 1, 1, 1, 0, -INF, 2}, U[] = {1, INF, 1, 2, 1, 2, INF}; int s = pickInt("sense", 0, 4), s2 = pickInt("sense2", 0, 6); double off = pickInt("net", 0, 1);
  for (int i = 0; i < 3; i++) { int k = i == 2 ? s2 : s; double t = off * p.A(i, 3) * p.lo[3]; p.rl[i] = L[k] + t; p.ru[i] = U[k] + t; }
  SymSolver si; p.load(si); OsiCuts cs; CglOddHole g; g.generateCuts(si, cs); after(p, si, cs, 0.001, 100);
#elif SC == 5 // triangle with symbolic values
  Prob p(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p.A(i, j) = j != i ? 1 : 0; binaries(p, 3, -3); int s = pickInt("cover", 0, 2); for (int i = 0; i < 3; i++) { p.rl[i] = s ? 1 : -INF; p.ru[i] = s == 1 ? INF : 1; }
  SymSolver si; p.load(si); OsiCuts cs; CglOddHole g; g.generateCuts(si, cs); after(p, si, cs, 0.001, 100);
#elif SC == 2 // odd cycle of five rows with chords and lifted columns, all packing or all covering
  const int n = 6; Prob p(n, 5); binaries(p, n, -2); int s = pickInt("cover", 0, 1); p.up[5] = 1;
  for (int i = 0; i < 5; i++) { for (int j = 0; j < n; j++) p.A(i, j) = j == i || j == (i + 1) % 5; p.A(i, 5) = i < 3 ? pickInt("lift", 0, 1) : 1; p.rl[i] = s ? 1 : -INF; p.ru[i] = s ? INF : 1; }
  p.A(0, 3) = pickInt("chord", 0, 1); static const double V[] = {0.25, 0.5}; for (int j = 0; j < 6; j++) p.x[j] = j == 5 ? pickInt("x5", 0, 1) * 0.25 : pickFrom("v", V, 2);
  SymSolver si; p.load(si); OsiCuts cs; CglOddHole g; g.generateCuts(si, cs); after(p, si, cs, 0.001, 100);
#elif SC == 3 // one or two long rows: cycles inside a row
  int m = pickInt("m", 1, 2); Prob p(4, m); binaries(p, 4, -2); static const double V[] = {0.25, 0.5, 0.75}; for (int j = 0; j < 4; j++) p.x[j] = pickFrom("v", V, j == 3 ? 2 : 3); for (int i = 0; i < m; i++) { for (int j = 0; j < 4; j++) p.A(i, j) = i == 0 ? 1 : pickInt("a", 0, 1); int s = pickInt("sense", 0, 2); p.rl[i] = s == 0 ? -INF : 1; p.ru[i] = s == 1 ? INF : 1; double t = p.act(i, &p.x[0]); (void)t; }
  SymSolver si; p.load(si); OsiCuts cs; CglOddHole g; g.generateCuts(si, cs); after(p, si, cs, 0.001, 100);
#elif SC == 4 // configured limits are honoured; row lists of another size
  const int n = 5, m = 4; Prob p(n, m); binaries(p, 3, -3); for (int j = 3; j < n; j++) { p.lo[j] = 0; p.up[j] = 1; p.isint[j] = 1; p.x[j] = 0; }
  p.x[3] = pickInt("x3", 0, 1) * 0.125; static const double XV[] = {0.25, 0.5, 0.625, 0.4375}; for (int j = 0; j < 3; j++) p.x[j] = pickFrom("xv", XV, j ? 3 : 4); int s = pickInt("cover", 0, 1); for (int i = 0; i < 3; i++) { for (int j = 0; j < n; j++) p.A(i, j) = j < 3 && j != i ? 1 : 0; p.A(i, 3) = i < 2; p.A(i, 4) = i > 0 ? 1 : 0; } for (int j = 0; j < n; j++) p.A(3, j) = j == 3; for (int i = 0; i < m; i++) { p.rl[i] = s ? 1 : -INF; p.ru[i] = s ? INF : 1; }
  p.rl[3] = -INF; p.ru[3] = 1;
  SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); si.rc[3] = vs_int("dj3", -1, 1); si.rc[4] = vs_int("dj4", -1, 1); OsiCuts cs; CglOddHole g; static const double MV[] = {0.001, 0.3, 0.45}; double mv = pickFrom("mv", MV, 3); g.setMinimumViolation(mv); int me = pickInt("maxent", 2, 5); g.setMaximumEntries(me); me = g.getMaximumEntries();
  int which = pickInt("list", 0, 3); int all[6] = {1, 1, 1, 0, 1, 1}; if (which == 1) g.createRowList(si); if (which == 2) g.createRowList(2, all); if (which == 3) g.createRowList(6, all);
  g.generateCuts(si, cs); after(p, si, cs, mv, me);
#endif
}
