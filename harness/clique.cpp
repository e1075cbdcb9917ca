#include "prob.hpp"
#include "CglClique.hpp"
static const char *MSG = "clique cut keeps every integer-feasible point";
static void bin(Prob &p, int j, double x) { p.lo[j] = 0; p.up[j] = 1; p.isint[j] = 1; p.x[j] = x; }
static void after(Prob &p, SymSolver &si, OsiCuts &cs, CglClique &g, double mv, double viol) {
  vs_check(si.writes == 0, "solver unchanged"); vs_check(g.getMinViolation() == mv, "generator parameters unchanged"); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated");
  for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &c = cs.rowCut(i); if (c.row().getNumElements() > 3) vs_reach("clique of four"); vs_check(dotAt(c.row(), &p.x[0]) >= c.ub() + viol - 1e-9, "clique cut is violated by the current solution"); }
  p.point(-1, 2); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG);
}
static void params(CglClique &g) {
  int mode = pickInt("mode", 0, 2); g.setDoRowClique(mode != 1); g.setDoStarClique(mode != 0); if (mode != 0) g.setStarCliqueNextNodeMethod((CglClique::scl_next_node_method)pickInt("rule", 0, 2));
  int th = pickInt("thr", 0, 1); g.setRowCliqueCandidateLengthThreshold(th ? 12 : 0); g.setStarCliqueCandidateLengthThreshold(th ? 12 : 0);
}
extern "C" void vs_main() {
#if SC == 1 // triangle of rows, one extra column of any kind with any coefficient, rows of any sense
  Prob p(4, 3); for (int j = 0; j < 3; j++) bin(p, j, vs_real("x", 0, 1, -3)); static const double C[] = {-1, 0, 0.5, 1}, L[] = {-1, 0}; static const double R[] = {1, 0, 2};
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) p.A(i, j) = i != j; p.rl[i] = -INF; p.ru[i] = 1; } double c = pickFrom("c", C, 4); for (int i = 0; i < 3; i++) p.A(i, 3) = c;
  p.isint[3] = pickInt("int", 0, 1); p.lo[3] = pickFrom("lo", L, 2); p.up[3] = pickInt("w", 0, 2) + p.lo[3]; p.x[3] = vs_real("x3", -1, 2, -1); vs_assume(vAnd(p.x[3] >= p.lo[3], p.x[3] <= p.up[3]));
  int s = pickInt("sense", 0, 3); if (s == 1) { p.rl[0] = 1; } if (s == 2) { p.rl[0] = 1; p.ru[0] = INF; } if (s == 3) p.ru[0] = pickFrom("rhs", R, 3); if (s == 0) p.A(0, 1) = pickFrom("c1", C, 4);
  SymSolver si; p.load(si); OsiCuts cs; CglClique g; params(g); g.generateCuts(si, cs); after(p, si, cs, g, -1, 0);
#elif SC == 2 // four or five binaries: every conflict graph built from pair rows and a longer row
  const int n = 5; Prob p(n, 6); double x = vs_real("x", 0.125, 0.5, -3), z = vs_real("z", 0.125, 0.5, -3); for (int j = 0; j < n; j++) bin(p, j, j < 2 ? x : j < 4 ? z : 0.5);
  for (int i = 0; i < 6; i++) for (int j = 0; j < n; j++) p.A(i, j) = 0; for (int i = 0; i < 6; i++) { p.rl[i] = -INF; p.ru[i] = 1; }
  p.A(0, 0) = p.A(0, 1) = 1; p.A(0, 2) = pickInt("a", 0, 1); p.A(1, 0) = p.A(1, 2) = pickInt("b", 0, 1); p.A(2, 1) = p.A(2, 2) = 1; p.A(2, 3) = pickInt("c", 0, 1); p.A(3, 0) = p.A(3, 3) = 1; p.A(4, 1) = p.A(4, 3) = pickInt("d", 0, 1); p.A(3, 4) = pickInt("e", 0, 1); p.A(5, 4) = 1; p.A(5, 2) = 1; p.A(5, 1) = pickInt("f", 0, 1);
  SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); OsiCuts cs; CglClique g(pickInt("packing", 0, 1)); params(g); g.generateCuts(si, cs); after(p, si, cs, g, -1, 0);
#elif SC == 3 // row lists, tree information and minimum violation
  const int n = 4, m = 4; Prob p(n, m); for (int j = 0; j < 3; j++) bin(p, j, vs_real("x", 0, 1, -2)); bin(p, 3, 0); for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) p.A(i, j) = j == 3 ? 1 : i != j; p.rl[i] = -INF; p.ru[i] = 1; } for (int j = 0; j < 3; j++) p.A(3, j) = pickInt("last", 0, 1);
  SymSolver si; p.load(si); OsiCuts cs; bool orig = pickInt("orig", 0, 1); CglClique g(pickInt("packing", 0, 1), orig); double mv = -1; if (pickInt("mv", 0, 1)) { mv = 0.25; g.setMinViolation(mv); }
  CglTreeInfo info; info.inTree = pickInt("inTree", 0, 1); info.formulation_rows = pickInt("frows", 0, 4); info.options = pickInt("opt", 0, 1) ? 4 : 0; info.pass = pickInt("pass", 0, 1);
  CglClique *h = dynamic_cast<CglClique *>(g.clone()); g.generateCuts(si, cs, info); OsiCuts c2; h->generateCuts(si, c2, info); vs_check(c2.sizeRowCuts() == cs.sizeRowCuts(), "a clone generates the same cuts"); delete h;
  for (int i = 0; i < cs.sizeRowCuts(); i++) if (info.inTree) vs_check(!cs.rowCut(i).globallyValid(), "cuts found in the tree are not claimed to be global");
  after(p, si, cs, g, mv, mv > 0 ? mv : 0);
#elif SC == 4 // empty rows and columns, column order not sorted
  Prob p(4, 3); for (int j = 0; j < 4; j++) bin(p, j, vs_real("x", 0, 1, -2)); for (int i = 0; i < 3; i++) { for (int j = 0; j < 4; j++) p.A(i, j) = j < 3 ? pickInt("a", 0, 1) : 0; p.rl[i] = -INF; p.ru[i] = 1; }
  SymSolver si; p.load(si); OsiCuts cs; CglClique g; g.generateCuts(si, cs); after(p, si, cs, g, -1, 0);
#elif SC == 5 // one column in conflict with five others, which are in conflict in every possible way; a second such column
  const int n = 7; Prob p(n, 21); int m = 0, tw = pickInt("twin", 0, 1); for (int i = 0; i < 21; i++) { for (int j = 0; j < n; j++) p.A(i, j) = 0; p.rl[i] = -INF; p.ru[i] = 1; } for (int j = 0; j < n; j++) bin(p, j, j == 6 && !tw ? 0 : 0.5);
  for (int j = 0; j < n; j++) for (int k = 0; k < j; k++) { if (j == 6 ? !tw && k : k && !pickInt("edge", 0, 1)) continue; p.A(m, j) = p.A(m, k) = 1; m++; }
  SymSolver si; p.load(si); OsiCuts cs; CglClique g; int mode = pickInt("mode", 0, 1); g.setDoRowClique(mode); g.setDoStarClique(!mode); g.setRowCliqueCandidateLengthThreshold(12); g.setStarCliqueCandidateLengthThreshold(pickInt("thr", 0, 1) * 12); if (!mode) g.setStarCliqueNextNodeMethod((CglClique::scl_next_node_method)pickInt("rule", 0, 2)); g.generateCuts(si, cs); after(p, si, cs, g, -1, 0);
#endif
}
