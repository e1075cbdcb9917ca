#include "prob.hpp"
#include "CglDuplicateRow.hpp"
#include "CglStored.hpp"
static void none(Prob &p) { for (int i = 0; i < p.n * p.m; i++) p.a[i] = 0; }
static void bin(Prob &p, int j) { p.lo[j] = 0; p.up[j] = 1; p.isint[j] = 1; p.x[j] = 0.5; }
static void row(Prob &p, int i, int mask, int eq) { for (int j = 0; j < p.n; j++) p.A(i, j) = (mask >> j) & 1; p.rl[i] = eq ? 1 : -INF; p.ru[i] = 1; }
// nothing is claimed that the rows do not imply: marks (rows that can go), bounds, infeasibility
static void sound(Prob &p, const int *mark, const OsiCuts &cs, int wl, int wu) {
  for (int i = 0; i < p.m; i++) { vs_obs_int("mark", mark[i]); if (mark[i] == -2 || mark[i] >= 0) vs_reach("dropped"); } if (cs.sizeColCuts()) vs_reach("fixed"); if (cs.sizeRowCuts()) vs_reach("infeasible");
  p.point(wl, wu); bool kept = true, all = true; for (int i = 0; i < p.m; i++) { double s = p.act(i, &p.y[0]); bool ok = true; if (p.rl[i] > -1e30) ok = vAnd(ok, s >= p.rl[i]); if (p.ru[i] < 1e30) ok = vAnd(ok, s <= p.ru[i]); all = vAnd(all, ok); if (mark[i] != -2 && mark[i] < 0) kept = vAnd(kept, ok); }
  bool fix = true; for (int i = 0; i < cs.sizeColCuts(); i++) fix = vAnd(fix, colCutHolds(cs.colCut(i), &p.y[0], 1e-9));
  vs_check(vImp(all, fix), "columns are fixed only as the rows imply"); vs_check(vImp(vAnd(kept, fix), all), "rows marked as duplicates are implied by the others"); vs_check(vImp(all, cs.sizeRowCuts() == 0), "infeasibility is only reported when there is no feasible point");
}
static void gen(Prob &p, SymSolver &si, CglDuplicateRow &g, OsiCuts &cs) { g.setMode(8); g.refreshSolver(&si); long b = vs_live_bytes(); { OsiCuts t; CglDuplicateRow h(g); h.generateCuts(si, t); } vs_check(vs_live_bytes() == b, "generating releases all its memory"); g.generateCuts(si, cs); obsCuts(cs); checkWellFormed(cs, p.n, false); vs_check(si.writes == 0, "solver unchanged"); }
extern "C" void vs_main() {
#if SC == 1 // three rows over five 0-1 columns: sets and senses
  static const int T[] = {0x03, 0x06, 0x13, 0x1c, 0x0f}; Prob p(5, 3); none(p); for (int j = 0; j < 5; j++) bin(p, j); int o = pickInt("order", 0, 2); row(p, o, pickInt("r", 3, 31), pickInt("eq", 0, 1)); row(p, (o + 1) % 3, pickInt("r", 3, 31), pickInt("eq", 0, 1)); row(p, (o + 2) % 3, T[pickInt("t", 0, 4)], pickInt("eq", 0, 1));
  SymSolver si; p.gaps = 0; p.load(si); CglDuplicateRow g; OsiCuts cs; gen(p, si, g, cs); sound(p, g.duplicate(), cs, 0, 1);
#elif SC == 2 // six columns: one long row, rows that start inside it
  Prob p(6, 3); none(p); for (int j = 0; j < 6; j++) bin(p, j); int o = pickInt("order", 0, 2); row(p, o, 1 + 2 * pickInt("r", 1, 15) + 32 * pickInt("last", 0, 1), pickInt("eq", 0, 1)); row(p, (o + 1) % 3, 2 * pickInt("r", 3, 31), pickInt("eq", 0, 1)); row(p, (o + 2) % 3, pickInt("t", 0, 1) ? 0x30 : 0x38, pickInt("eq", 0, 1));
  SymSolver si; p.load(si); CglDuplicateRow g; OsiCuts cs; gen(p, si, g, cs); sound(p, g.duplicate(), cs, 0, 1);
#elif SC == 3 // any kind of column, entry, bound and right-hand side
  static const double L[] = {0, 1, 0, 0, -1, 0}, U[] = {1, 1, 0, 2, 1, INF}, C[] = {1, 2, -1, 0.5}, B[] = {1, 0, 2, -1, 1.5, INF}, D[] = {-INF, 1, 0, 0.5, 2}; Prob p(4, 3); none(p); for (int j = 0; j < 4; j++) bin(p, j); int k = pickInt("kind", 0, 5); p.lo[3] = L[k]; p.up[3] = U[k]; p.x[3] = p.lo[3]; int ic = pickInt("cont", 0, 2); if (ic) p.isint[ic == 1 ? 3 : 2] = 0; row(p, 0, 0x0f, 0); row(p, 1, pickInt("r", 0, 1) ? 0x0b : 0x03, pickInt("eq", 0, 1)); row(p, 2, 0x07, pickInt("eq", 0, 1)); p.A(0, 3) = pickFrom("c", C, 4); p.A(0, 0) = pickInt("c0", 0, 1) ? 2 : 1; p.ru[0] = pickFrom("b", B, 6); p.rl[0] = pickFrom("d", D, 5); if (pickInt("swap", 0, 1)) p.rl[1] = pickFrom("d1", D, 4); vs_assume(p.rl[0] <= p.ru[0]);
  SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); CglDuplicateRow g; OsiCuts cs; gen(p, si, g, cs); sound(p, g.duplicate(), cs, -1, 3);
#elif SC == 4 // outDuplicates, the other modes, copies, tree
  Prob p(4, 3); none(p); for (int j = 0; j < 4; j++) bin(p, j); row(p, 0, 0x07, pickInt("eq", 0, 1)); row(p, 1, pickInt("r", 3, 15), pickInt("eq", 0, 1)); row(p, 2, pickInt("r2", 0, 1) ? 0x07 : 0x06, pickInt("eq", 0, 1)); SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); int m = pickInt("mode", 0, 3); if (!m) m = 8; int how = pickInt("how", 0, 3);
  CglDuplicateRow g0(&si); g0.setMode(m); vs_check(g0.numberOriginalRows() == 3, "the problem is kept"); CglDuplicateRow *g = how == 0 ? new CglDuplicateRow(g0) : how == 1 ? dynamic_cast<CglDuplicateRow *>(g0.clone()) : new CglDuplicateRow(); if (how > 1) { if (how == 3) g->refreshSolver(&si); *g = g0; }
  SymSolver keep(si); OsiCuts cs; if (pickInt("tree", 0, 1)) { CglTreeInfo info; info.inTree = true; g->generateCuts(si, cs, info); vs_check(cs.sizeCuts() == 0 && si.writes == 0, "nothing is done in the tree without stored cuts"); }
  CglStored *s = g->outDuplicates(&si); vs_obs_int("deleted", (int)si.deleted.size()); vs_check(s == NULL, "no stored cuts"); const int *mark = g->duplicate(); for (size_t q = 0; q < si.deleted.size(); q++) { int i = si.deleted[q]; vs_check(i >= 0 && i < 3 && (mark[i] == -2 || mark[i] >= 0), "exactly the marked rows are deleted"); vs_reach("deleted"); for (size_t t = 0; t < q; t++) vs_check(si.deleted[t] != i, "a row is deleted once"); } int nm = 0; for (int i = 0; i < 3; i++) if (mark[i] == -2 || mark[i] >= 0) nm++; vs_check(nm == (int)si.deleted.size(), "exactly the marked rows are deleted");
  p.point(0, 1); bool kept = true, all = true, fix = true; for (int i = 0; i < 3; i++) { double v = p.act(i, &p.y[0]); bool ok = vAnd(v >= p.rl[i], v <= p.ru[i]); all = vAnd(all, ok); if (mark[i] != -2 && mark[i] < 0) kept = vAnd(kept, ok); } for (int j = 0; j < 4; j++) { fix = vAnd(fix, vAnd(p.y[j] >= si.cl[j], p.y[j] <= si.cu[j])); if (si.cu[j] < keep.cu[j]) vs_reach("fixed"); } vs_check(vImp(all, fix), "columns are fixed only as the rows imply"); vs_check(vImp(vAnd(kept, fix), all), "deleted rows are implied by the others"); delete g;
#endif
}
