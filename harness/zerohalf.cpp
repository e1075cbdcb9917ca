#include "prob.hpp"
#include "CglZeroHalf.hpp"
static const char *MSG = "zero-half cut keeps every integer-feasible point";
static void after(Prob &p, SymSolver &si, OsiCuts &cs, int wl, int wu) {
  vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated"); if (cs.sizeRowCuts() > 1) vs_reach("two cuts");
  for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &c = cs.rowCut(i); const CoinPackedVector &r = c.row(); bool integral = true; for (int q = 0; q < r.getNumElements(); q++) integral = vAnd(integral, r.getElements()[q] == floor(r.getElements()[q])); vs_check(integral, "zero-half cut has integer coefficients"); vs_check(rowCutViolated(c, si.x, 1e-4), "zero-half cut is violated by the current solution"); }
  p.point(wl, wu); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG);
}
static void xs(Prob &p, int g) { for (int j = 0; j < p.n; j++) { p.x[j] = vs_real("x", -2, 4, g); if (p.lo[j] > -1e30) vs_assume(p.x[j] >= p.lo[j]); if (p.up[j] < 1e30) vs_assume(p.x[j] <= p.up[j]); } for (int i = 0; i < p.m; i++) { double s = p.act(i, &p.x[0]); if (p.rl[i] > -1e30) vs_assume(s >= p.rl[i]); if (p.ru[i] < 1e30) vs_assume(s <= p.ru[i]); } }
static void sense(Prob &p, int i, double b, int hi) { int s = pickInt("sense", 0, hi); p.rl[i] = s == 0 ? -INF : b; p.ru[i] = s == 1 ? INF : b; if (s == 3) p.ru[i] = b + 1; }
static void noLeak(SymSolver &si, int sp) { si.getMatrixByRow(); long b = vs_live_bytes(); { OsiCuts cs; CglZeroHalf g; if (sp) g.setSepGraphSparseThreshold(0); g.refreshSolver(&si); g.generateCuts(si, cs); } vs_check(vs_live_bytes() == b, "generating cuts releases all its memory"); }
extern "C" void vs_main() {
#if SC == 1 // odd triangle of rows, any sense and parity
  static const double A[] = {1, -1, 3}; Prob p(3, 3); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) p.A(i, j) = 0; p.A(i, i) = i ? 1 : pickFrom("a", A, 3); p.A(i, (i + 1) % 3) = i == 1 ? pickFrom("a", A, 2) : 1; sense(p, i, i == 0 ? pickInt("b", -1, 3) : 1, i ? 1 : 3); }
  for (int j = 0; j < 3; j++) { p.isint[j] = 1; p.lo[j] = j ? 0 : pickInt("lo", -1, 0); p.up[j] = j == 2 ? 2 : 1; } xs(p, -1);
  SymSolver si; p.load(si); int sp = pickInt("sparse", 0, 1); noLeak(si, sp); OsiCuts cs; CglZeroHalf g; if (sp) g.setSepGraphSparseThreshold(0); g.refreshSolver(&si); g.generateCuts(si, cs); after(p, si, cs, -2, 4);
#elif SC == 2 // rows with common divisors, even and odd coefficients, stored zeros, infinite and fractional bounds, a continuous column
  static const double A[] = {-2, 0, 1, 3}, L[] = {0, -INF, 0.5}, U[] = {1, INF, 2.5}; Prob p(3, 2); int z = pickInt("zero", 0, 1); for (int j = 0; j < 3; j++) { p.A(0, j) = pickFrom("a", A, 4); p.nz[j] = 2; if (z) p.nz[j] = 1; p.A(1, j) = j ? 2 : 1; p.isint[j] = 1; p.lo[j] = j ? 0 : pickFrom("lo", L, 3); p.up[j] = j == 2 ? 3 : pickFrom("up", U, 3); } p.isint[2] = pickInt("int", 0, 1);
  sense(p, 0, pickInt("b", 0, 3), 1); p.rl[1] = -INF; p.ru[1] = 3; xs(p, -1);
  SymSolver si; p.load(si); OsiCuts cs; CglZeroHalf g; g.refreshSolver(&si); g.generateCuts(si, cs); after(p, si, cs, -2, 4);
#elif SC == 3 // odd cycle of five packing or covering rows, odd coefficients weakened away
  Prob p(6, 5); for (int i = 0; i < 5; i++) { for (int j = 0; j < 6; j++) p.A(i, j) = 0; p.A(i, i) = 1; p.A(i, (i + 1) % 5) = i == 2 ? (pickInt("n", 0, 1) ? -1 : 1) : 1; p.A(i, 5) = i < 2 ? pickInt("e", 0, 1 + i) : 0; sense(p, i, 1, i == 3 ? 1 : 0); } for (int j = 0; j < 6; j++) { p.isint[j] = 1; p.lo[j] = 0; p.up[j] = j == 5 ? 2 : 1; p.x[j] = 0.5; } p.x[5] = vs_real("x5", 0, 2, -2); p.x[3] = vs_real("x3", 0, 1, -2);
  SymSolver si; p.load(si); OsiCuts cs; CglZeroHalf g; if (pickInt("sparse", 0, 1)) g.setSepGraphSparseThreshold(0); g.refreshSolver(&si); g.generateCuts(si, cs); after(p, si, cs, 0, 2);
#elif SC == 4 // bounds changed since the refresh (a branched node), global flag, row filters
  Prob p(3, 3); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) p.A(i, j) = 0; p.A(i, i) = 1; p.A(i, (i + 1) % 3) = 1; sense(p, i, 1, i ? 0 : 1); } for (int j = 0; j < 3; j++) { p.isint[j] = 1; p.lo[j] = -1; p.up[j] = 2; } for (int j = 0; j < 3; j++) p.x[j] = j == 1 ? vs_real("x", 0, 1, -2) : 0.5;
  SymSolver si; p.load(si); OsiCuts cs; CglZeroHalf g; int glob = pickInt("global", 0, 1); g.setFlags(glob); if (pickInt("pairs", 0, 1)) g.setRowMaxPairCount(pickInt("k", -1, 2)); else g.setRowMaxFractionalCount(pickInt("k", -1, 2)); g.refreshSolver(&si);
  Prob q = p; q.lo[0] = pickInt("l0", -1, 0); q.up[0] = pickInt("u0", 0, 1); q.up[1] = pickInt("u1", 1, 3); if (q.up[0] == 0) q.x[0] = 0; q.lo[2] = pickInt("l2", -2, 1); SymSolver s2; q.load(s2); CglTreeInfo info; info.inTree = pickInt("tree", 0, 1); g.generateCuts(s2, cs, info);
  for (int i = 0; i < cs.sizeRowCuts(); i++) vs_check(cs.rowCut(i).globallyValid() == (glob != 0), "a cut is marked global exactly when asked");
  after(glob ? p : q, s2, cs, -2, 3);
#elif SC == 8 // coefficients and right-hand sides that are not integer, ranged rows
  static const double A[] = {1, 0.5, -1, 1.5}, L[] = {-INF, 0.5, -0.5, -1.5, -1}, U[] = {INF, 1, 0.5, -0.5}; Prob p(3, 3); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) p.A(i, j) = 0; p.A(i, i) = 1; p.A(i, (i + 1) % 3) = 1; p.rl[i] = -INF; p.ru[i] = 1; } p.A(0, 0) = pickFrom("a", A, 4); p.A(0, 1) = pickFrom("a1", A, 3); p.rl[0] = pickFrom("rl", L, 5); p.ru[0] = pickFrom("ru", U, 4); vs_assume(p.rl[0] <= p.ru[0]);
  for (int j = 0; j < 3; j++) { p.isint[j] = 1; p.lo[j] = j == 1 ? pickInt("lo", -1, 0) : 0; p.up[j] = 1; } xs(p, -2);
  SymSolver si; p.load(si); OsiCuts cs; CglZeroHalf g; g.refreshSolver(&si); g.generateCuts(si, cs); after(p, si, cs, -1, 1);
#elif SC == 5 // copies, assignment, refreshing again with another problem
  Prob p(3, 3); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) p.A(i, j) = 0; p.A(i, i) = 1; p.A(i, (i + 1) % 3) = 1; sense(p, i, 1, i ? 0 : 3); } for (int j = 0; j < 3; j++) { p.isint[j] = 1; p.lo[j] = 0; p.up[j] = 1; p.x[j] = vs_real("x", 0, 1, -1); }
  SymSolver si; p.gaps = pickInt("gaps", 0, 1); p.load(si); OsiCuts c1, cs; CglZeroHalf g; g.refreshSolver(&si); g.generateCuts(si, c1); int how = pickInt("how", 0, 5);
  if (how == 0) g.generateCuts(si, cs);
  else if (how == 1) { CglCutGenerator *h = g.clone(); h->generateCuts(si, cs); delete h; }
  else if (how == 2) { CglZeroHalf h; h = g; h.generateCuts(si, cs); }
  else if (how == 3) { CglZeroHalf h; h.refreshSolver(&si); h = g; h.generateCuts(si, cs); }
  else { Prob q(2, how == 4 ? 1 : 3); for (int i = 0; i < q.m; i++) { q.A(i, 0) = 1 + (i == 1); q.A(i, 1) = i == 2 ? 1 : 3; q.rl[i] = -INF; q.ru[i] = 3; } for (int j = 0; j < 2; j++) { q.isint[j] = how == 5; q.lo[j] = 0; q.up[j] = 1; q.x[j] = p.x[j]; } SymSolver s2; q.load(s2); g.refreshSolver(&s2); g.generateCuts(s2, cs); after(q, s2, cs, 0, 1); if (pickInt("back", 0, 1)) { OsiCuts c3; g.refreshSolver(&si); g.generateCuts(si, c3); checkSameCuts(c1, c3, "refreshed generator gives the cuts of its problem"); } vs_end(); }
  checkSameCuts(c1, cs, "the same problem gives the same cuts, also from a copy");
  after(p, si, cs, 0, 1);
#elif SC == 6 // shortest paths: every arc length, every graph shape over four nodes
  const int N = 4; auxiliary_graph g; g.nnodes = N; cgl_node nodes[N + 1]; memset(nodes, 0, sizeof nodes); cgl_arc arcs[N * N + 1]; memset(arcs, 0, sizeof arcs); g.nodes = nodes; g.arcs = arcs; int na = 0, src = pickInt("source", 0, 1); double d[N]; static const int BIG = 1000000;
  for (int i = 0; i < N; i++) { nodes[i].index = i; nodes[i].firstArc = arcs + na; for (int j = 0; j < N; j++) if (i != j && pickInt("arc", 0, 1)) { arcs[na].to = j; arcs[na].length = vs_int("len", 0, 12); na++; } } nodes[N].firstArc = arcs + na; g.narcs = na; int limit = 10;
  for (int i = 0; i < N; i++) d[i] = i == src ? 0 : BIG; for (int r = 0; r < N - 1; r++) { double e[N]; for (int i = 0; i < N; i++) e[i] = d[i]; for (int i = 0; i < N; i++) for (cgl_arc *a = nodes[i].firstArc; a != nodes[i + 1].firstArc; a++) { double v = d[i] + a->length; e[a->to] = vs_ite(v < e[a->to], v, e[a->to]); } for (int i = 0; i < N; i++) d[i] = e[i]; }
  cglShortestPath(&g, src, limit);
  for (int i = 0; i < N; i++) { int v = nodes[i].distanceBack; vs_obs_int("d", v); vs_check(vImp(d[i] < limit, (double)v == d[i]), "the distance of a node below the limit is the shortest one"); vs_check((double)v >= d[i], "no distance is too short");
    int q = nodes[i].parentNode; if (v != COIN_INT_MAX && i != src) { vs_check(q >= 0 && q < N, "a reached node has a predecessor"); bool there = false; for (cgl_arc *a = nodes[q].firstArc; a != nodes[q + 1].firstArc; a++) if (a->to == i) there = vOr(there, nodes[q].distanceBack + a->length <= v); vs_check(there, "the predecessor leads to the node at that distance"); vs_reach("reached"); } }
#elif SC == 7 // rows with three and four odd entries: weakening by bounds
  Prob p(4, 2); for (int i = 0; i < 2; i++) { for (int j = 0; j < 4; j++) p.A(i, j) = i ? j == 2 ? 2 : 1 : 1; p.rl[i] = -INF; p.ru[i] = i ? pickInt("b1", 2, 3) : pickInt("b", 1, 2); } p.A(0, 3) = pickInt("a", -1, 1); p.A(1, 0) = pickInt("a1", 0, 3); for (int j = 0; j < 4; j++) { p.isint[j] = 1; p.lo[j] = j == 3 ? pickInt("lo", -1, 0) : 0; p.up[j] = j == 2 ? pickInt("up", 1, 2) : 1; } xs(p, -1);
  SymSolver si; p.load(si); int sp = pickInt("sparse", 0, 1); noLeak(si, sp); OsiCuts cs; CglZeroHalf g; if (sp) g.setSepGraphSparseThreshold(0); g.refreshSolver(&si); g.generateCuts(si, cs); after(p, si, cs, -1, 2);
#endif
}
