#include "prob.hpp"
#include "CglRedSplit.hpp"
static const char *MSG = "reduce-and-split cut keeps every feasible point";
// A problem with rows A x + s = rhs, a basis (list of variables, slack of row i = n + i) and the nonbasic variables at their bounds; the basic solution and tableau are computed exactly.
struct Tab {
  Prob &p; SymSolver &si; int n, m; std::vector<int> cst, rst, bas;
  Tab(Prob &pp, SymSolver &s) : p(pp), si(s), n(pp.n), m(pp.m), cst(pp.n, 3), rst(pp.m, 1), bas(pp.m) {}
  void finish() { // gauss-jordan on the (concrete) basis matrix
    int w = m + m; std::vector<double> T(m * w, 0.0), BI(m * m), r(m);
    for (int i = 0; i < m; i++) { for (int k = 0; k < m; k++) T[i * w + k] = bas[k] < n ? p.A(i, bas[k]) : (bas[k] - n == i ? 1 : 0); T[i * w + m + i] = 1; }
    for (int k = 0; k < m; k++) { int q = k; while (q < m && T[q * w + k] == 0) q++; vs_assume(q < m); if (q >= m) return; for (int c = 0; c < w; c++) { double t = T[k * w + c]; T[k * w + c] = T[q * w + c]; T[q * w + c] = t; } double d = T[k * w + k]; for (int c = 0; c < w; c++) T[k * w + c] /= d; for (int i = 0; i < m; i++) if (i != k) { double f = T[i * w + k]; if (f != 0) for (int c = 0; c < w; c++) T[i * w + c] -= f * T[k * w + c]; } }
    for (int i = 0; i < m; i++) for (int k = 0; k < m; k++) BI[i * m + k] = T[i * w + m + k];
    for (int j = 0; j < n; j++) if (cst[j] != 1) p.x[j] = cst[j] == 2 ? p.up[j] : p.lo[j];
    for (int i = 0; i < m; i++) { double rhs = p.ru[i] < 1e30 ? p.ru[i] : p.rl[i]; double sl = 0; if (rst[i] == 2 && p.ru[i] < 1e30 && p.rl[i] > -1e30) sl = p.ru[i] - p.rl[i]; r[i] = rhs - sl; for (int j = 0; j < n; j++) if (cst[j] != 1) r[i] -= p.A(i, j) * p.x[j]; }
    for (int k = 0; k < m; k++) if (bas[k] < n) { double v = 0; for (int i = 0; i < m; i++) v += BI[k * m + i] * r[i]; p.x[bas[k]] = v; }
    for (int j = 0; j < n; j++) { if (p.lo[j] > -1e30) vs_assume(p.x[j] >= p.lo[j]); if (p.up[j] < 1e30) vs_assume(p.x[j] <= p.up[j]); }
    for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += p.A(i, j) * p.x[j]; if (p.rl[i] > -1e30) vs_assume(s >= p.rl[i]); if (p.ru[i] < 1e30) vs_assume(s <= p.ru[i]); }
    p.load(si); si.haveBasis = true; si.cstat = new int[n + 1]; si.rstat = new int[m + 1]; si.basics = new int[m + 1]; si.binv = new double[m * m + 1]; si.binvA = new double[m * n + 1];
    for (int j = 0; j < n; j++) si.cstat[j] = cst[j]; for (int i = 0; i < m; i++) { si.rstat[i] = rst[i]; si.basics[i] = bas[i]; }
    for (int i = 0; i < m * m; i++) si.binv[i] = BI[i];
    for (int k = 0; k < m; k++) for (int j = 0; j < n; j++) { double v = 0; for (int i = 0; i < m; i++) v += BI[k * m + i] * p.A(i, j); si.binvA[k * n + j] = v; }
  }
};
// sense 0: <=, 1: >=, 2: range at its upper side, 3: range at its lower side, 4: equality
static void row(Prob &p, Tab &t, int i, double b, int s) { p.rl[i] = s == 0 ? -INF : s == 2 ? b - 1 : b; p.ru[i] = s == 1 ? INF : s == 3 ? b + 1 : b; t.rst[i] = s == 1 || s == 3 ? 2 : 3; }
static void after(Prob &p, SymSolver &si, OsiCuts &cs, int wl, int wu) {
  vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated"); if (cs.sizeRowCuts() > 1) vs_reach("two cuts");
  p.point(wl, wu); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG);
}
static void noLeak(SymSolver &si, const CglRedSplit &h) { long b = vs_live_bytes(); { OsiCuts cs; CglRedSplit g(h); g.generateCuts(si, cs); } vs_check(vs_live_bytes() == b, "generating cuts releases all its memory"); }
#if SC == 5
// many rows with a basic slack and one entry at most; the tableau is that of the identity
struct Wide : public SymSolver { int frac[4]; void getBInvARow(int r, double *z, double *sl) const { for (int j = 0; j < n; j++) z[j] = 0; for (int i = 0; i < m; i++) sl[i] = 0; sl[r] = 1; for (int k = 0; k < 4; k++) if (frac[k] == r) { z[k] = 1; z[4] = 0.25 + k; } } };
#endif
extern "C" void vs_main() {
#if SC == 1 // one row, one basic integer column, nonbasic integer or continuous columns at either bound
  static const double A[] = {-1.5, 0.75, 2}, B[] = {1, 2.5, 3.25}, L[] = {0, -1, 0.5}, U[] = {2, 3, 2.5}; Prob p(3, 1); SymSolver si; Tab t(p, si); p.A(0, 0) = pickInt("a0", 0, 1) ? 1 : 2; p.A(0, 1) = pickFrom("a", A, 3); p.A(0, 2) = pickFrom("a", A, 3);
  p.isint[0] = 1; p.lo[0] = -4; p.up[0] = 6; for (int j = 1; j < 3; j++) { p.isint[j] = j == 1 ? 1 : pickInt("int", 0, 1); t.cst[j] = pickInt("stat", 2, 3); p.lo[j] = pickFrom("lo", L, p.isint[j] ? 2 : 3); p.up[j] = j == 1 ? pickFrom("up", U, 2) : 2 + (p.isint[j] ? 0 : 0.5); }
  t.bas[0] = 0; t.cst[0] = 1; row(p, t, 0, pickFrom("b", B, 3), pickInt("sense", 0, 4)); t.finish();
  CglRedSplit g; if (pickInt("cg2", 0, 1)) { CglRedSplitParam q = g.getParam(); q.setUSE_CG2(1); g.setParam(q); } OsiCuts cs; noLeak(si, g); g.generateCuts(si, cs); after(p, si, cs, -4, 6);
#elif SC == 2 // two rows, a basis of two integer columns, reduction of the continuous part
  static const double A[] = {-1, 0.75, 2}, B[] = {1.5, 2, 2.75}, M[][4] = {{1, 0, 0, 1}, {2, 0, 0, 1}, {1, 1, -1, 1}, {2, 1, 0, 1}}; Prob p(4, 2); SymSolver si; Tab t(p, si); int k = pickInt("basis", 0, 3); for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) p.A(i, j) = M[k][i * 2 + j]; p.A(i, 2) = pickFrom("a", A, 3); p.A(i, 3) = i ? 0.5 : -0.25; }
  for (int j = 0; j < 4; j++) { p.isint[j] = j != 3; p.lo[j] = j < 2 ? -5 : 0; p.up[j] = j < 2 ? 5 : 2; } p.isint[2] = pickInt("int", 0, 1); t.cst[2] = pickInt("stat", 2, 3); t.cst[0] = t.cst[1] = 1; t.bas[0] = pickInt("order", 0, 1); t.bas[1] = 1 - t.bas[0];
  for (int i = 0; i < 2; i++) row(p, t, i, pickFrom("b", B, 3), i ? pickInt("sense", 0, 1) : pickInt("sense", 0, 2)); t.finish();
  CglRedSplit g; if (pickInt("cg2", 0, 1)) { CglRedSplitParam q = g.getParam(); q.setUSE_CG2(1); g.setParam(q); } OsiCuts cs; noLeak(si, g); g.generateCuts(si, cs); after(p, si, cs, -5, 5);
#elif SC == 3 // fewer tableau rows than fractional basic columns; one row with a basic slack
  static const double B[] = {1.5, 2.25, 2}; Prob p(4, 4); SymSolver si; Tab t(p, si); int sl = pickInt("slack", 0, 4); for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) p.A(i, j) = i == j; p.A(i, 3) = i == 3 ? 1 : 0.5; row(p, t, i, pickFrom("b", B, 3), i ? 0 : pickInt("sense", 0, 1)); }
  for (int j = 0; j < 4; j++) { p.isint[j] = 1; p.lo[j] = -3; p.up[j] = 4; } for (int i = 0; i < 4; i++) { if (i == sl) { t.bas[i] = 4 + i; t.rst[i] = 1; } else { t.bas[i] = i; t.cst[i] = 1; } } p.gaps = pickInt("gaps", 0, 1); t.finish();
  CglRedSplit g; g.setMaxTab(pickInt("tab", 0, 1) ? 11 : 1e7); OsiCuts cs; noLeak(si, g); g.generateCuts(si, cs); after(p, si, cs, -3, 4);
#elif SC == 4 // large bounds, support limit, coefficient and violation limits, fractionality limit
  static const double A[] = {1e-4, -1e-9, 0.3, 40}, B[] = {1.03, 1.5}, U[] = {3, 2000}; Prob p(4, 1); SymSolver si; Tab t(p, si); p.A(0, 0) = 1; p.A(0, 1) = pickFrom("a", A, 4); p.A(0, 2) = pickFrom("a", A, 4); p.A(0, 3) = 0.5; for (int j = 0; j < 4; j++) { p.isint[j] = j < 2; p.lo[j] = j ? 0 : -9; p.up[j] = j == 2 ? pickFrom("up", U, 2) : j == 1 && pickInt("big", 0, 1) ? 5000 : 9; t.cst[j] = 3; } t.bas[0] = 0; t.cst[0] = 1; row(p, t, 0, pickFrom("b", B, 2), pickInt("sense", 0, 1)); t.finish();
  CglRedSplit g; if (pickInt("lim", 0, 1)) g.setLimit(2); if (pickInt("away", 0, 1)) g.setAway(0.02); if (pickInt("lub", 0, 1)) g.setLUB(10000); CglRedSplitParam q = g.getParam(); if (pickInt("rel", 0, 1)) q.setEPS_RELAX_REL(1e-3); g.setParam(q); OsiCuts cs; g.generateCuts(si, cs);
  for (int i = 0; i < cs.sizeRowCuts(); i++) vs_check(cs.rowCut(i).row().getNumElements() <= g.getLimit(), "a cut has no more entries than the limit"); if (g.getAway() > 0.03) vs_check(cs.sizeRowCuts() == 0 || p.x[0] - floor(p.x[0]) >= 0.05, "no cut from a column closer to an integer than the limit"); after(p, si, cs, -9, 9);
#elif SC == 6 // small entries dropped from the cut and paid for by the bounds
  static const double A[] = {0.04, -0.06, 1.02}, L[] = {0, -2, 1}; Prob p(4, 1); SymSolver si; Tab t(p, si); p.A(0, 0) = 1; p.A(0, 1) = pickFrom("a", A, 3); p.A(0, 2) = pickFrom("a", A, 2); p.A(0, 3) = 0.5; for (int j = 0; j < 4; j++) { p.isint[j] = j == 0 || j == 1; p.lo[j] = j == 0 ? -9 : j == 3 ? 0 : pickFrom("lo", L, 3); p.up[j] = j == 0 ? 9 : 3; t.cst[j] = j == 1 || j == 2 ? pickInt("stat", 2, 3) : 3; } t.bas[0] = 0; t.cst[0] = 1; row(p, t, 0, 1.5, pickInt("sense", 0, 2)); t.finish();
  CglRedSplit g; g.setEPS_COEFF(0.1); CglRedSplitParam q = g.getParam(); q.setUSE_CG2(pickInt("cg2", 0, 1)); if (pickInt("rel", 0, 1)) q.setEPS_RELAX_REL(1e-2); g.setParam(q); OsiCuts cs; g.generateCuts(si, cs); for (int i = 0; i < cs.sizeRowCuts(); i++) if (cs.rowCut(i).row().getNumElements() < 4) vs_reach("dropped"); after(p, si, cs, -9, 9);
#elif SC == 5 // so many rows that the choice of tableau rows starts in the middle and wraps around
  const int M = 64000; Prob p(5, M); for (int j = 0; j < 5; j++) { p.isint[j] = j < 4; p.lo[j] = 0; p.up[j] = 3; } Wide si; Tab t(p, si); int last = pickInt("last", 0, 1) ? M - 1 : M - 2, first = pickInt("first", 0, 1); si.frac[0] = first; si.frac[1] = 2 * first; si.frac[1] = first + 1; si.frac[2] = first + 2 + (first ? 0 : 5); si.frac[3] = last; for (int i = 0; i < M * 5; i++) p.nz[i] = 0; for (int i = 0; i < M; i++) { p.rl[i] = -INF; p.ru[i] = 1; }
  for (int k = 0; k < 4; k++) { int i = si.frac[k]; p.A(i, k) = 1; p.A(i, 4) = 0.25 + k; p.nz[i * 5 + k] = p.nz[i * 5 + 4] = 1; p.ru[i] = 1.25 + 0.25 * (k & 1); p.x[k] = p.ru[i]; } p.x[4] = 0;
  p.load(si); si.haveBasis = true; si.cstat = new int[6]; si.rstat = new int[M]; si.basics = new int[M]; for (int i = 0; i < M; i++) { si.rstat[i] = 1; si.basics[i] = 5 + i; } for (int k = 0; k < 4; k++) { si.rstat[si.frac[k]] = 3; si.basics[si.frac[k]] = k; si.cstat[k] = 1; } si.cstat[4] = 3;
  CglRedSplit g; g.setMaxTab(pickInt("tab", 0, 1) ? 46 : 21); OsiCuts cs; g.generateCuts(si, cs); obsCuts(cs); checkWellFormed(cs, 5); vs_check(cs.sizeRowCuts() > 0, "the selected rows give cuts"); vs_reach("cut generated"); p.point(0, 3); for (int k = 0; k < 4; k++) vs_assume(p.y[k] + (0.25 + k) * p.y[4] <= p.ru[si.frac[k]]); p.checkCuts(cs, 1e-6, MSG);
#endif
}
