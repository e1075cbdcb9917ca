#include "prob.hpp"
#include "CglFlowCover.hpp"
static const char *MSG = "flow cover cut keeps every feasible point";
static void xs(Prob &p, int j, int g) { p.x[j] = vs_real("x", 0, 6, g); if (p.lo[j] > -1e30) vs_assume(p.x[j] >= p.lo[j]); if (p.up[j] < 1e30) vs_assume(p.x[j] <= p.up[j]); }
// every array that a call allocates is released
static void leak(SymSolver &si) { long b = vs_live_bytes(); { OsiCuts t; CglFlowCover h; h.generateCuts(si, t); } vs_check(vs_live_bytes() == b, "generating releases all its memory"); }
static void after(Prob &p, SymSolver &si, OsiCuts &cs) {
  vs_check(si.writes == 0, "solver unchanged"); leak(si); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated");
  for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &c = cs.rowCut(i); vs_check(dotAt(c.row(), &p.x[0]) > c.ub() + 0.05 - 1e-5, "flow cover cut is violated by the current solution"); }
  p.point(-3, 8, -3); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG);
}
// row i: y <= m * x, written either way round
static void vub(Prob &p, int i, int y, int x, double m, bool flip) { p.A(i, y) = flip ? -1 : 1; p.A(i, x) = flip ? m : -m; p.rl[i] = flip ? 0 : -INF; p.ru[i] = flip ? INF : 0; }
extern "C" void vs_main() {
#if SC == 1 // single node: inflows and an outflow with variable upper bounds or plain bounds
  static const double M[] = {2, 3, 5}, B[] = {2, 4, 5.5}, XV[] = {0.25, 0.5, 0.75, 1}; const int n = 6; Prob p(n, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < n; j++) p.A(i, j) = 0;
  for (int j = 0; j < 3; j++) { p.isint[j] = 0; p.lo[j] = 0; p.up[j] = 6; p.isint[3 + j] = 1; p.lo[3 + j] = 0; p.up[3 + j] = 1; } double f = pickInt("flip", 0, 1) ? -1 : 1;
  p.A(0, 0) = f; p.A(0, 1) = f; p.A(0, 2) = pickInt("out", 0, 1) ? -f : f; double b = f * pickFrom("b", B, 3); bool eq = pickInt("eq", 0, 1); p.rl[0] = eq || f < 0 ? b : -INF; p.ru[0] = eq || f > 0 ? b : INF;
  vub(p, 1, 0, 3, pickFrom("m", M, 3), false); vub(p, 2, 1, 4, pickFrom("m", M, 3), true); if (pickInt("plain", 0, 1)) { p.up[2] = pickFrom("m", M, 3); p.rl[3] = -INF; p.ru[3] = INF; p.A(3, 0) = 1; p.A(3, 1) = 1; p.A(3, 2) = 1; } else vub(p, 3, 2, 5, pickFrom("m", M, 3), false);
  for (int j = 0; j < n; j++) if (j < 3) xs(p, j, -1); else p.x[j] = pickFrom("xv", XV, j == 5 ? 2 : 4); SymSolver si; p.load(si); OsiCuts cs; CglFlowCover g; g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 2 // binaries in the row, positive and negative; several in and outflows without variable bounds, fixed columns
  static const double C[] = {-3, 2, 4}, U[] = {1, 3, INF}, B[] = {1, 2.5, 4}; const int n = 5; Prob p(n, 2); for (int j = 0; j < n; j++) { p.A(0, j) = j < 2 ? 1 : pickFrom("c", C, 3); p.A(1, j) = 0; p.isint[j] = j > 2; p.lo[j] = 0; p.up[j] = j < 3 ? j == 0 ? 2 : pickFrom("u", U, 3) : 1; } if (pickInt("fix", 0, 1)) p.lo[4] = p.up[4] = pickInt("at", 0, 1);
  int s = pickInt("sense", 0, 2); double b = pickFrom("b", B, 3); p.rl[0] = s == 0 ? -INF : b; p.ru[0] = s == 1 ? INF : b; if (pickInt("vub", 0, 1)) vub(p, 1, 0, 3, 2, true); else { p.A(1, 0) = p.A(1, 1) = 1; p.rl[1] = -INF; p.ru[1] = INF; }
  for (int j = 0; j < n; j++) if (j < 2) xs(p, j, -1); else { static const double V[] = {0.25, 0.5, 1}; p.x[j] = p.lo[j] == p.up[j] ? p.lo[j] : pickFrom("v", V, 3); if (p.x[j] > p.up[j]) p.x[j] = p.up[j]; } SymSolver si; p.load(si); OsiCuts cs; CglFlowCover g; g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 3 // five inflows and outflows with variable upper bounds: lifting
  static const double M[] = {2, 3, 4, 7}, B[] = {3, 6}; const int k = 4, n = 2 * k; Prob p(n, k + 1); for (int i = 0; i <= k; i++) for (int j = 0; j < n; j++) p.A(i, j) = 0;
  for (int j = 0; j < k; j++) { p.isint[j] = 0; p.lo[j] = 0; p.up[j] = 8; p.isint[k + j] = 1; p.lo[k + j] = 0; p.up[k + j] = 1; double m = pickFrom("m", M, 4); vub(p, j + 1, j, k + j, m, j & 1); p.A(0, j) = j == 3 || (j == 2 && pickInt("out", 0, 1)) ? -1 : 1; static const double V[] = {0, 0.5, 1}; p.x[k + j] = pickFrom("v", V, 3); p.x[j] = pickInt("full", 0, 1) ? m * p.x[k + j] : 0; }
  p.rl[0] = pickInt("eq", 0, 1) ? 0 : -INF; p.ru[0] = pickFrom("b", B, 2); if (p.rl[0] == 0) p.rl[0] = p.ru[0]; SymSolver si; p.load(si); OsiCuts cs; CglFlowCover g; g.generateCuts(si, cs); after(p, si, cs);
#elif SC == 4 // copies, limits, repeated calls, tree information
  static const double B[] = {3, 5}; const int n = 4; Prob p(n, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < n; j++) p.A(i, j) = 0; for (int j = 0; j < 2; j++) { p.isint[j] = 0; p.lo[j] = 0; p.up[j] = 8; p.isint[2 + j] = 1; p.lo[2 + j] = 0; p.up[2 + j] = 1; vub(p, j, j, 2 + j, j ? 4 : 6, j); p.A(2, j) = 1; p.A(3, j) = 1; static const double V[] = {0.5, 0.75, 1}; p.x[2 + j] = pickFrom("v", V, 3); p.x[j] = (j ? 4 : 6) * p.x[2 + j]; } p.rl[2] = p.rl[3] = -INF; p.ru[2] = 5; p.ru[3] = pickFrom("b", B, 2);
  SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); CglFlowCover g0; int mx = pickInt("max", 0, 3); if (mx < 3) g0.setMaxNumCuts(mx); CglTreeInfo info; info.inTree = pickInt("tree", 0, 1); info.options = pickInt("opt", 0, 1) * 4; OsiCuts c1; g0.generateCuts(si, c1, info); vs_check(mx == 3 || c1.sizeRowCuts() <= mx, "no more cuts than the maximum"); for (int i = 0; i < c1.sizeRowCuts(); i++) vs_check(c1.rowCut(i).globallyValid() == (!info.inTree && info.options == 4), "cuts are marked globally valid at the root only, when asked");
  long base = vs_live_bytes(); int how = pickInt("how", 0, 3); CglFlowCover *h = how == 0 ? &g0 : how == 1 ? new CglFlowCover(g0) : how == 2 ? dynamic_cast<CglFlowCover *>(g0.clone()) : new CglFlowCover; if (how == 3) { OsiCuts t; h->generateCuts(si, t); *h = g0; CglFlowCover *s = h; *h = *s; } vs_check(h->getMaxNumCuts() == g0.getMaxNumCuts(), "a copy has the same limit"); { OsiCuts cs; h->generateCuts(si, cs, info); if (mx == 3) checkSameCuts(c1, cs, "the same call gives the same cuts", 0, 0); if (h != &g0) delete h; } vs_check(vs_live_bytes() == base, "copies and repeated calls leave nothing allocated behind"); after(p, si, c1);
#endif
}
