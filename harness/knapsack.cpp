#include "prob.hpp"
#include "CglKnapsackCover.hpp"
static const char *MSG = "knapsack cut keeps every feasible point";
static void bin(Prob &p, int j, double x) { p.lo[j] = 0; p.up[j] = 1; p.isint[j] = 1; p.x[j] = x; }
// the relaxation point satisfies the rows up to tol
static void feas(Prob &p, double tol) { for (int i = 0; i < p.m; i++) { double s = p.act(i, &p.x[0]); if (p.rl[i] > -1e30) vs_assume(s >= p.rl[i] - tol); if (p.ru[i] < 1e30) vs_assume(s <= p.ru[i] + tol); } }
static void sense(Prob &p, int i, double b, int hi) { int s = pickInt("sense", 0, hi); p.rl[i] = s == 0 ? -INF : b; p.ru[i] = s == 1 ? INF : b; if (s == 3) p.ru[i] = b + 1; }
static void after(Prob &p, SymSolver &si, OsiCuts &cs, int wl, int wu, bool viol = true) {
  vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated"); if (cs.sizeRowCuts() > 1) vs_reach("two cuts"); if (cs.sizeColCuts()) vs_reach("infeasible");
  if (viol) for (int i = 0; i < cs.sizeRowCuts(); i++) vs_check(rowCutViolated(cs.rowCut(i), si.x, 1e-9), "knapsack cut is violated by the current solution");
  for (int i = 0; i < cs.sizeRowCuts(); i++) { bool nz = true; for (int q = 0; q < cs.rowCut(i).row().getNumElements(); q++) nz = vAnd(nz, cs.rowCut(i).row().getElements()[q] != 0); vs_check(nz, "a knapsack cut has no zero entries"); if (cs.rowCut(i).row().getNumElements()) { double e = cs.rowCut(i).row().getElements()[0]; if (e != 1 && e != -1) vs_reach("lifted"); } }
  p.point(wl, wu); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG);
}
static void noLeak(SymSolver &si, const CglKnapsackCover &h) { long b = vs_live_bytes(); { OsiCuts cs; CglKnapsackCover g(h); g.generateCuts(si, cs); } vs_check(vs_live_bytes() == b, "generating cuts releases all its memory"); }
extern "C" void vs_main() {
#if SC == 1 // one row of any sense over four binaries, entries of any sign
  static const double A[] = {-3, 0, 1, 2}; Prob p(4, 1); for (int j = 0; j < 4; j++) { bin(p, j, vs_real("x", 0, 1, -2)); p.A(0, j) = j == 3 ? 3 : j ? pickFrom("a", A + j, 3 - (j > 1)) : pickFrom("a", A, 4); } sense(p, 0, pickInt("b", 1, 4), 3); feas(p, 0); p.nz[0] = 1;
  SymSolver si; p.load(si); CglKnapsackCover g; if (pickInt("exp", 0, 1)) g.switchOnExpensive(); OsiCuts cs; g.generateCuts(si, cs); after(p, si, cs, 0, 1);
#elif SC == 2 // four binaries and one column of any kind (continuous, general integer, fixed, unbounded) with any entry
  static const double A[] = {-2, 0.5, 1}; static const double L[] = {0, -1, 1, 0, -INF, 0.25}, U[] = {1, 2, 1, INF, 1, 0.25}; Prob p(5, 1); for (int j = 0; j < 4; j++) { bin(p, j, vs_real("x", 0, 1, -2)); p.A(0, j) = j == 3 ? (pickInt("neg", 0, 1) ? -3 : 3) : 1 + j; } p.A(0, 4) = pickFrom("a", A, 3); int k = pickInt("kind", 0, 5); p.lo[4] = L[k]; p.up[4] = U[k]; p.isint[4] = k == 5 ? 0 : pickInt("int", 0, 1); p.x[4] = vs_real("xc", -2, 2, -2); if (L[k] > -1e30) vs_assume(p.x[4] >= L[k]); if (U[k] < 1e30) vs_assume(p.x[4] <= U[k]);
  sense(p, 0, pickInt("b", 2, 4), 1); feas(p, 0); SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); CglKnapsackCover g; OsiCuts cs; g.generateCuts(si, cs); after(p, si, cs, -2, 2);
#elif SC == 3 // continuous columns replaced by variable bounds given in other rows
  static const double V[] = {1, -1, 2}, W[] = {-2, 3, -1}; Prob p(6, 3); for (int i = 0; i < 18; i++) p.a[i] = 0; for (int j = 0; j < 4; j++) bin(p, j, vs_real("x", 0, 1, -1)); for (int j = 4; j < 6; j++) { p.isint[j] = 0; p.lo[j] = j == 4 ? 0 : -INF; p.up[j] = j == 4 ? 3 : INF; p.x[j] = vs_real("xc", -1, 3, -1); if (j == 4) vs_assume(p.x[j] >= 0); }
  p.A(0, 0) = 1; p.A(0, 1) = 2; p.A(0, 4) = pickFrom("v", V, 2); p.A(0, 5) = pickFrom("v", V, 2); int s = pickInt("sense", 0, 1); p.rl[0] = s ? 1 : -INF; p.ru[0] = s ? INF : 2;
  for (int i = 1; i < 3; i++) { p.A(i, 3 + i) = i == 1 ? pickFrom("v", V, 3) : 1; p.A(i, i == 1 ? 2 : 3) = i == 1 ? pickFrom("w", W, 3) : -3; s = pickInt("sense", 0, 1); p.rl[i] = s ? 0 : -INF; p.ru[i] = s ? INF : i == 1 ? pickInt("r", 0, 1) : 0; } feas(p, 0);
  SymSolver si; p.load(si); CglKnapsackCover g; OsiCuts cs; g.generateCuts(si, cs); after(p, si, cs, -2, 3);
#elif SC == 4 // six or seven binaries: lifting of columns at zero and at one
  static const double A[][7] = {{5, 4, 3, 3, 2, 2, 1}, {7, 6, 5, 4, 3, 1, 1}, {4, 4, 4, 3, 3, 3, 2}, {9, 5, 5, 2, 2, 2, 3}}; Prob p(7, 1); int k = pickInt("row", 0, 3); for (int j = 0; j < 7; j++) { bin(p, j, vs_real("x", 0, 1, -1)); p.A(0, j) = A[k][j]; } int s = pickInt("flip", 0, 2); double b = pickInt("b", 9, 11); if (s) for (int j = 0; j < 7; j++) if (s == 1 ? j == 1 : j > 3) { p.A(0, j) = -p.A(0, j); b += p.A(0, j); } p.rl[0] = -INF; p.ru[0] = b; feas(p, 0);
  SymSolver si; p.load(si); CglKnapsackCover g; OsiCuts cs; g.generateCuts(si, cs); after(p, si, cs, 0, 1);
#elif SC == 5 // points that satisfy the rows only within the tolerance of an LP solver, decimal entries, small entries
  static const double A[][5] = {{1, 1, 0.005, 0.5, 0.25}, {0.1, 0.1, 0.1, 0.05, 0.2}, {0.1, 0.2, 0.3, 0.7, 0.01}, {3, 2, 0.001, 0.002, 1}}; static const double B[] = {2, 0.3, 0.3, 5}; Prob p(7, 1); int k = pickInt("row", 0, 3); for (int j = 0; j < 5; j++) { int v = pickInt("v", j < 2 ? 1 : 0, j < 2 && k != 2 ? 2 : 3); bin(p, j, v == 0 ? 0 : v == 1 ? 1 : v == 2 ? vs_real("xs", 0, 0.0001, -17) : vs_real("x", 0, 1, -2)); p.A(0, j) = A[k][j]; }
  for (int j = 5; j < 7; j++) { bin(p, j, 1); p.lo[j] = 1; p.A(0, j) = j == 5 ? 0.1 : 0.2; } p.rl[0] = -INF; p.ru[0] = B[k] + (pickInt("fix", 0, 1) ? 0.3 : -0.0); if (p.ru[0] < 0.31) { p.lo[5] = p.lo[6] = 0; p.up[5] = pickInt("five", 0, 1); p.up[6] = p.up[5]; p.x[5] = p.x[6] = p.up[5]; p.lo[5] = p.lo[6] = p.up[5]; } feas(p, 1e-7); p.rtol = 1e-12;
  SymSolver si; p.load(si); CglKnapsackCover g; OsiCuts cs; g.generateCuts(si, cs); after(p, si, cs, 0, 1);
#elif SC == 6 // row lists, size limit, tree information, copies, memory
  static const double B[] = {4, 5}; Prob p(5, 3); for (int i = 0; i < 3; i++) { for (int j = 0; j < 5; j++) p.A(i, j) = j < 4 ? 1 + (i + j) % 4 : i; p.rl[i] = -INF; p.ru[i] = i ? 6 : pickFrom("b", B, 2); } for (int j = 0; j < 5; j++) bin(p, j, j > 2 ? 0.5 : vs_real("x", 0, 1, -2)); feas(p, 0);
  SymSolver si; p.load(si); CglKnapsackCover g; int max = pickInt("max", 3, 5); g.setMaxInKnapsack(max); if (pickInt("again", 0, 1)) { int w[1] = {1}; g.setTestedRowIndices(1, w); } int l = pickInt("list", 0, 3), w2[3] = {l == 3 ? 7 : 2, -1, 0}; if (l) g.setTestedRowIndices(l == 1 ? 0 : l, w2); CglTreeInfo info; info.inTree = pickInt("tree", 0, 1); info.pass = pickInt("pass", 0, 1); info.options = pickInt("opt", 0, 2) * 4; noLeak(si, g);
  OsiCuts cs; g.generateCuts(si, cs, info); for (int i = 0; i < cs.sizeRowCuts(); i++) { vs_check(cs.rowCut(i).row().getNumElements() <= max, "no cut is longer than the limit"); if (info.inTree) vs_check(!cs.rowCut(i).globallyValid(), "cuts found in the tree are not claimed to be global"); else if (info.options == 4) vs_check(cs.rowCut(i).globallyValid(), "cuts found at the root are global when asked"); }
  OsiCuts c2; int how = pickInt("how", 0, 3); if (how == 0) g.generateCuts(si, c2, info); else if (how == 1) { CglCutGenerator *h = g.clone(); h->generateCuts(si, c2, info); delete h; } else if (how == 2) { CglKnapsackCover h; h = g; h.generateCuts(si, c2, info); } else { CglKnapsackCover h; int w[2] = {0, 1}; h.setTestedRowIndices(2, w); h = g; h.generateCuts(si, c2, info); } checkSameCuts(cs, c2, "the same problem gives the same cuts, also from a copy"); after(p, si, cs, 0, 1);
#elif SC == 7 // cliques: only fixings implied by the rows, memory
  Prob p(4, 3); for (int j = 0; j < 4; j++) { bin(p, j, 0.5); if (j == 3) { p.isint[3] = pickInt("int", 0, 1); p.lo[3] = pickInt("lo", 0, 1); } } for (int i = 0; i < 3; i++) { for (int j = 0; j < 4; j++) p.A(i, j) = i == 2 ? j < 2 : j == 3 ? (i ? 1 : 0) : i == 0 ? pickInt("a", -1, 1) : j > 0; int b = pickInt("b", i ? 0 : -2, i ? 1 : 2); int s = pickInt("sense", 0, 2); p.rl[i] = s == 0 ? -INF : b; p.ru[i] = s == 1 ? INF : b; }
  SymSolver si; p.load(si); long b0 = vs_live_bytes(); int n; { CglKnapsackCover g; n = g.createCliques(si, pickInt("min", 0, 2), pickInt("max", 3, 100)); CglKnapsackCover h(g), k; k = g; CglCutGenerator *c = k.clone(); delete c; g.createCliques(si); } vs_check(vs_live_bytes() == b0, "cliques are released"); vs_obs_int("n", n); if (n > 0) vs_reach("clique"); if (n < 0) vs_reach("infeasible"); if (si.writes) vs_reach("fixed");
  p.point(0, 1); p.assumeRows(); vs_check(n >= 0, "infeasibility is only reported when there is no feasible point"); bool ok = true; for (int j = 0; j < 4; j++) ok = vAnd(ok, vAnd(p.y[j] >= si.cl[j], p.y[j] <= si.cu[j])); vs_check(ok, "columns are fixed only as the rows imply");
#elif SC == 8 // long rows: the cover from the linear relaxation
  static const int N = 24; Prob p(N, 1); int d = pickInt("len", 0, 2); static const int LEN[] = {21, 22, 24}; for (int j = 0; j < N; j++) { bin(p, j, j == 0 ? 1 : j < 4 ? vs_real("x", 0, 1, -2) : j == 5 ? 0.5 : 0); p.A(0, j) = j < LEN[d] ? j < 3 ? 5 - j : j < 6 ? 3 : 1 + j % 3 : 0; } if (pickInt("neg", 0, 1)) { p.A(0, 1) = -4; p.A(0, 7) = -2; } p.rl[0] = -INF; p.ru[0] = pickInt("b", 8, 12); feas(p, 0);
  SymSolver si; p.load(si); CglKnapsackCover g; if (pickInt("exp", 0, 1)) g.switchOnExpensive(); CglTreeInfo info; info.inTree = pickInt("tree", 0, 1); info.pass = pickInt("pass", 0, 1); OsiCuts cs; g.generateCuts(si, cs, info); after(p, si, cs, 0, 1);
#elif SC == 9 // fixed columns in the knapsack row and in the variable bound row, every sense
  Prob p(5, 2); for (int i = 0; i < 10; i++) p.a[i] = 0; for (int j = 0; j < 3; j++) bin(p, j, vs_real("x", 0, 1, -1)); int fx = pickInt("fix", -1, 2); p.lo[4] = p.up[4] = p.x[4] = fx; p.isint[4] = pickInt("int", 0, 1); p.isint[3] = 0; p.lo[3] = -INF; p.up[3] = INF; p.x[3] = vs_real("xc", -3, 4, -1); int f = pickInt("where", 0, 2);
  p.A(0, 0) = 1; p.A(0, 1) = 2; p.A(0, 2) = pickInt("both", 0, 1); p.A(0, 3) = pickInt("v", 0, 1) ? 1 : -1; p.A(1, 3) = pickInt("v", 0, 1) ? 1 : -1; p.A(1, 2) = pickInt("w", 0, 1) ? 3 : -3; double c0 = 0, c1 = 0; if (f != 1) { p.A(0, 4) = 1; c0 = fx; } if (f != 0) { p.A(1, 4) = 2; c1 = 2 * fx; }
  int s = pickInt("sense", 0, 2); double b = pickInt("b", 1, 2) + c0; p.rl[0] = s == 0 ? -INF : b; p.ru[0] = s == 1 ? INF : b; s = pickInt("sense", 0, 2); b = pickInt("r", 0, 1) + c1; p.rl[1] = s == 0 ? -INF : b; p.ru[1] = s == 1 ? INF : b; feas(p, 0);
  SymSolver si; p.load(si); CglKnapsackCover g; CglTreeInfo info; info.inTree = pickInt("tree", 0, 1); OsiCuts cs; g.generateCuts(si, cs, info); after(p, si, cs, -3, 4);
#elif SC == 10 // two rows over the same columns: what a row leaves behind when it gives no cut, or one
  static const double R[][5] = {{-1, 1, 2, 0, 0}, {1, -2, -1, 3, 0}, {-3, 0, 1, -2, 1}, {2, -1, 2, -2, 1}, {-1, -2, -4, 0, -3}}, S[][5] = {{2, 3, 2, 4, 7}, {-2, 3, 1, -3, 0}, {3, 1, -2, 2, 4}};
  Prob p(4, 2); for (int j = 0; j < 4; j++) bin(p, j, vs_real("x", 0, 1, -1)); int o = pickInt("order", 0, 1), k = pickInt("first", 0, 4), q = pickInt("second", 0, 2); double b = R[k][4] + pickInt("b", 0, 1); bool ge = pickInt("ge", 0, 1); for (int j = 0; j < 4; j++) { p.A(o, j) = ge ? -R[k][j] : R[k][j]; p.A(1 - o, j) = S[q][j]; } p.rl[o] = ge ? -b : -INF; p.ru[o] = ge ? INF : b; p.rl[1 - o] = -INF; p.ru[1 - o] = S[q][4]; feas(p, 0);
  SymSolver si; p.load(si); CglKnapsackCover g; OsiCuts cs; g.generateCuts(si, cs); after(p, si, cs, 0, 1);
#endif
}
