#include "prob.hpp"
#include "CglTreeInfo.hpp"
// implications: column v at value to (0/1) puts column f at its lower (low) or upper bound
struct Imp { int v, to, f, low; };
static CglTreeProbingInfo *variant(CglTreeProbingInfo &g, int k) { if (k == 0) return new CglTreeProbingInfo(g); if (k == 1) return dynamic_cast<CglTreeProbingInfo *>(g.clone()); CglTreeProbingInfo *h = new CglTreeProbingInfo(); if (k == 3) { CglTreeProbingInfo other(g); *h = other; } *h = g; CglTreeProbingInfo *self = h; *h = *self; return h; }
static bool bin(const Prob &p, int j) { return p.isint[j] && p.lo[j] == 0 && p.up[j] == 1; }
static void cols(Prob &p) { // 0-1, general, 0-1, continuous, 0-1 ...
  for (int j = 0; j < p.n; j++) { p.isint[j] = j != 3; p.lo[j] = 0; p.up[j] = j == 1 ? 3 : j == 3 ? 2 : 1; p.x[j] = 0; for (int i = 0; i < p.m; i++) p.A(i, j) = j == 1; } for (int i = 0; i < p.m; i++) { p.rl[i] = -INF; p.ru[i] = 5; }
}
static Imp pickImp(int n, int i, bool only01) { Imp m; m.v = pickInt("v", 0, 1) ? 2 : 0; m.to = pickInt("to", 0, 1); m.low = pickInt("low", 0, 1); if (only01) m.f = pickInt("f", 0, 1) ? 4 : 2 - m.v; else { m.f = pickInt("f", 0, n - 1); if (m.f == m.v) vs_end(); } return m; }
static bool holds(const Imp &m, const double *y, const Prob &p) { return vImp(y[m.v] == m.to, y[m.f] == (m.low ? p.lo[m.f] : p.up[m.f])); }
extern "C" void vs_main() {
#if SC == 1 // what is registered is what can be read back, in order, without duplicates lost, after copies and packing
  const int n = 4; Prob p(n, 1); cols(p); SymSolver si; p.load(si); CglTreeProbingInfo g0(&si); vs_check(g0.initializeFixing(&si) == 1, "new information can be collected"); const int k = 3; Imp im[k];
  for (int i = 0; i < k; i++) { im[i] = pickImp(n, i, false); if (i == 2) vs_assume(im[2].v == 0); vs_check(g0.fixes(im[i].v, im[i].to ? 1 : -1, im[i].f, im[i].low), "there is room"); } vs_check(g0.fixes(1, 1, 0, true), "columns that are not 0-1 are no sources");
  int when = pickInt("when", 0, 1); if (when) g0.toZero(); CglTreeProbingInfo *g = variant(g0, pickInt("copy", 0, 3)); int pack = pickInt("pack", 0, 1); if (pack) g->packDown();
  CliqueEntry *e = g->fixEntries(); int *z = g->toZero(), *o = g->toOne(); int ni = g->numberIntegers(); vs_check(ni == 2 && g->numberVariables() == n && z[0] == 0, "0-1 columns counted"); bool nd = true;
  for (int j = 0; j < ni; j++) { vs_check(z[j] <= o[j] && o[j] <= z[j + 1], "starts are ordered"); vs_check(g->backward()[g->integerVariable()[j]] == j, "column maps are inverse"); }
  for (int i = 0; i < k; i++) { int b = g->backward()[im[i].v]; int f = g->backward()[im[i].f] >= 0 ? g->backward()[im[i].f] : ni + im[i].f; bool want = !(pack && f >= ni), found = false; for (int q = im[i].to ? o[b] : z[b]; q < (im[i].to ? z[b + 1] : o[b]); q++) if (sequenceInCliqueEntry(e[q]) == f && oneFixesInCliqueEntry(e[q]) == !im[i].low) found = true; vs_check(found == want, "a registered implication is stored"); if (found) vs_reach("stored"); }
  for (int b = 0; b < ni; b++) for (int q = z[b]; q < z[b + 1]; q++) { bool ok = false; for (int i = 0; i < k; i++) { int f = g->backward()[im[i].f] >= 0 ? g->backward()[im[i].f] : ni + im[i].f; if (g->backward()[im[i].v] == b && im[i].to == (q >= o[b]) && sequenceInCliqueEntry(e[q]) == f && oneFixesInCliqueEntry(e[q]) == !im[i].low) ok = true; } vs_check(ok, "nothing else is stored"); }
  delete g; (void)nd;
#elif SC == 2 // fixing columns of a solver
  const int n = 5; Prob p(n, 1); cols(p); SymSolver si; p.load(si); CglTreeProbingInfo g; g.initializeFixing(&si); const int k = 2; Imp im[k]; for (int i = 0; i < k; i++) { im[i] = pickImp(n, i, i == 1); g.fixes(im[i].v, im[i].to ? 1 : -1, im[i].f, im[i].low); }
  if (pickInt("conv", 0, 3)) g.toZero(); else { vs_check(g.fixColumns(si) == 0 && g.fixColumns(0, 1, si) == 0, "nothing to use before ordering"); vs_end(); }
  Prob q = p; int cs_ = pickInt("bnd0", 0, 2); if (cs_ == 0) q.up[0] = 0; if (cs_ == 1) q.lo[0] = 1; int c2 = pickInt("bnd2", 0, 2); if (c2 == 0) q.up[2] = 0; if (c2 == 1) q.lo[2] = 1; if (pickInt("bnd4", 0, 1)) q.lo[4] = 1;
  for (int j = 0; j < n; j++) { si.cl[j] = q.lo[j]; si.cu[j] = q.up[j]; } int one = pickInt("one", 0, 2), val = one ? pickInt("val", 0, 1) : 0; int r = one ? g.fixColumns(one == 1 ? 0 : 2, val, si) : g.fixColumns(si); if (r > 0) vs_reach("fixed"); if (r < 0) vs_reach("infeasible");
  if (one) { int c = one == 1 ? 0 : 2; vs_assume(q.lo[c] <= val && val <= q.up[c]); }
  int changed = 0; for (int j = 0; j < n; j++) changed += (si.cl[j] != q.lo[j]) + (si.cu[j] != q.up[j]); vs_check(r < 0 || r == changed, "the number of fixed columns is returned");
  if (r >= 0) for (int i = 0; i < k; i++) { if (!bin(p, im[i].f)) continue; bool at = one ? im[i].v == (one == 1 ? 0 : 2) && val == im[i].to : q.lo[im[i].v] == q.up[im[i].v] && q.lo[im[i].v] == im[i].to; if (at) vs_check(im[i].low ? si.cu[im[i].f] == 0 : si.cl[im[i].f] == 1, "an implication of a fixed column is applied"); }
  Prob t = q; t.point(0, 3); bool ok = true; for (int i = 0; i < k; i++) ok = vAnd(ok, holds(im[i], &t.y[0], p)); if (one) ok = vAnd(ok, t.y[one == 1 ? 0 : 2] == val); vs_assume(ok); vs_check(r >= 0, "infeasibility is reported only when the implications leave no point"); for (int j = 0; j < n; j++) vs_check(vAnd(t.y[j] >= si.cl[j], t.y[j] <= si.cu[j]), "fixing keeps every point that satisfies the implications");
#elif SC == 3 // cuts from implications
  const int n = 5; Prob p(n, 1); cols(p); SymSolver si; p.load(si); CglTreeProbingInfo g0; g0.initializeFixing(&si); const int k = 2; Imp im[k]; for (int i = 0; i < k; i++) { im[i] = pickImp(n, i, i == 1); g0.fixes(im[i].v, im[i].to ? 1 : -1, im[i].f, im[i].low); } if (pickInt("conv", 0, 3)) g0.toZero();
  Prob q = p; for (int j = 0; j < n; j += 2) { int c = pickInt("bnd", 0, j == 0 ? 3 : 2); if (c == 0) q.up[j] = 0; if (c == 1) q.lo[j] = 1; if (c == 3) { q.up[j] = 2; } } for (int j = 0; j < n; j++) { si.cl[j] = q.lo[j]; si.cu[j] = q.up[j]; q.x[j] = vs_real("x", 0, 3, -2); vs_assume(vAnd(q.x[j] >= q.lo[j], q.x[j] <= q.up[j])); si.x[j] = q.x[j]; }
  CglTreeProbingInfo *g = variant(g0, pickInt("copy", 0, 1) * 2); CglTreeInfo info; OsiCuts cs; g->generateCuts(si, cs, info); delete g; vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); bool infeas = false; for (int i = 0; i < cs.sizeRowCuts(); i++) if (cs.rowCut(i).row().getNumElements() == 0) infeas = true; if (infeas) vs_reach("infeasible"); else checkWellFormed(cs, n); if (cs.sizeColCuts()) vs_reach("fixed"); if (cs.sizeRowCuts()) vs_reach("cut generated");
  if (!infeas) for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &c = cs.rowCut(i); double s = dotAt(c.row(), &q.x[0]); vs_check(c.ub() < 1e30 ? s > c.ub() : s < c.lb(), "implication cuts are violated"); }
  q.point(0, 3); bool ok = true; for (int i = 0; i < k; i++) ok = vAnd(ok, holds(im[i], &q.y[0], p)); vs_assume(ok); vs_check(!infeas, "infeasibility is reported only when the implications leave no point"); if (!infeas) q.checkCuts(cs, 1e-6, "implication cuts keep every point that satisfies the implications");
#elif SC == 4 // clique model built from rows and implications
  const int n = 5, m = 2; Prob p(n, m); for (int j = 0; j < n; j++) { p.isint[j] = 1; p.lo[j] = 0; p.up[j] = 1; p.x[j] = 0; } p.up[4] = pickInt("u4", 0, 2); p.lo[4] = p.up[4] == 2 ? 0 : pickInt("l4", 0, 1); vs_assume(p.lo[4] <= p.up[4]); 
  for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) p.A(i, j) = j == 4 ? (i == 0 ? pickInt("a4", 0, 2) : 0) : i == 0 ? (j < 3 ? 1 : 0) : j == 1 ? 0 : pickInt("a", -1, 1); double s = 1; for (int j = 0; j < n; j++) if (p.A(i, j) < 0) s -= 1; p.ru[i] = s - (i == 1 ? pickInt("off", -1, 1) : 0); p.rl[i] = i ? pickInt("eq", 0, 1) ? p.ru[i] : -INF : -INF; }
  SymSolver si; p.load(si); CglTreeProbingInfo g; g.initializeFixing(&si); const int k = 2; Imp im[k]; im[0] = Imp{3, pickInt("to", 0, 1), 0, pickInt("low", 0, 1)}; im[1] = Imp{3, im[0].to, pickInt("f", 1, 2), im[0].low}; for (int i = 0; i < k; i++) { g.fixes(im[i].v, im[i].to ? 1 : -1, im[i].f, im[i].low); g.fixes(im[i].f, im[i].low ? 1 : -1, im[i].v, im[i].to == 1); }
  OsiSolverInterface *ns = g.analyze(si, 1, pickInt("always", 0, 1) ? -1 : 0); if (!ns) vs_end(); SymSolver *s2 = dynamic_cast<SymSolver *>(ns); vs_check(si.writes == 0, "solver unchanged"); vs_reach("model"); vs_obs_int("rows", (int)s2->addedRow.size());
  p.point(0, 2); p.assumeRows(); bool ok = true; for (int i = 0; i < k; i++) { ok = vAnd(ok, holds(im[i], &p.y[0], p)); ok = vAnd(ok, vImp(p.y[im[i].f] == im[i].low, p.y[im[i].v] == 1 - im[i].to)); } vs_assume(ok); for (size_t r = 0; r < s2->addedRow.size(); r++) { double s = dotAt(s2->addedRow[r], &p.y[0]); bool h = s <= s2->addedUp[r]; if (s2->addedLo[r] > -1e30) h = vAnd(h, s >= s2->addedLo[r]); vs_check(h, "clique model keeps every point that satisfies rows and implications"); if (s2->addedRow[r].getNumElements() > 3) vs_reach("strengthened"); }
  delete ns;
#elif SC == 5 // clique model with cliques given by the caller
  const int n = 5, m = 1; Prob p(n, m); for (int j = 0; j < n; j++) { p.isint[j] = 1; p.lo[j] = 0; p.up[j] = j == 1 ? 2 : 1; p.x[j] = 0; p.A(0, j) = j == 0 || j == 2 ? 1 : 0; } p.rl[0] = pickInt("eq", 0, 1) ? 1 : -INF; p.ru[0] = 1; // 0-1 columns: 0 2 3 4
  SymSolver si; p.load(si); CglTreeProbingInfo g; g.initializeFixing(&si); static const int col[] = {0, 2, 3, 4}; const int nc = 3; int len[nc], seq[nc][3], one[nc][3]; char type[nc]; CoinBigIndex st[nc + 1]; CliqueEntry en[9]; st[0] = 0; int at = 0;
  for (int c = 0; c < nc; c++) { len[c] = c == 2 ? pickInt("len", 2, 3) : 2; type[c] = c < 2 && pickInt("type", 0, 1) ? 'E' : 'S'; for (int q = 0; q < len[c]; q++) { seq[c][q] = c == 0 ? q + 1 : c == 1 ? (q ? 3 : pickInt("s", 0, 2)) : q + pickInt("s", 0, 0); one[c][q] = c == 0 && q ? 1 : pickInt("one", 0, 1); CliqueEntry t; t.fixes = 0; setOneFixesInCliqueEntry(t, one[c][q]); setSequenceInCliqueEntry(t, seq[c][q]); en[at++] = t; } st[c + 1] = at; }
  Imp im = Imp{4, pickInt("to", 0, 1), 0, pickInt("low", 0, 1)}; g.fixes(im.v, im.to ? 1 : -1, im.f, im.low); g.fixes(im.f, im.low ? 1 : -1, im.v, im.to == 1);
  OsiSolverInterface *ns = g.analyze(si, 1, nc, st, en, type); if (!ns) vs_end(); SymSolver *s2 = dynamic_cast<SymSolver *>(ns); vs_check(si.writes == 0, "solver unchanged"); vs_reach("model"); vs_obs_int("rows", (int)s2->addedRow.size());
  p.point(0, 2); p.assumeRows(); bool ok = vAnd(holds(im, &p.y[0], p), vImp(p.y[im.f] == im.low, p.y[im.v] == 1 - im.to)); for (int c = 0; c < nc; c++) { double s = 0; for (int q = 0; q < len[c]; q++) s += one[c][q] ? p.y[col[seq[c][q]]] : 1 - p.y[col[seq[c][q]]]; ok = vAnd(ok, s <= 1); if (type[c] == 'E') ok = vAnd(ok, s == 1); } vs_assume(ok);
  for (size_t r = 0; r < s2->addedRow.size(); r++) { double s = dotAt(s2->addedRow[r], &p.y[0]); bool h = s <= s2->addedUp[r]; if (s2->addedLo[r] > -1e30) h = vAnd(h, s >= s2->addedLo[r]); vs_check(h, "clique model keeps every point that satisfies rows, cliques and implications"); if (s2->addedRow[r].getNumElements() > 2) vs_reach("long"); } delete ns;
#elif SC == 6 // many implications: storage grows, nothing is lost
  const int n = 20, k = 260; Prob p(n, 1); for (int j = 0; j < n; j++) { p.isint[j] = 1; p.lo[j] = 0; p.up[j] = 1; p.x[j] = 0; p.A(0, j) = 1; } p.rl[0] = -INF; p.ru[0] = n; SymSolver si; p.load(si); int sh = pickInt("shift", 0, 2), cp = pickInt("copy", 0, 4); CglTreeProbingInfo g0; g0.initializeFixing(&si); CglTreeProbingInfo *g = &g0; Imp im[k];
  for (int i = 0; i < k; i++) { im[i].v = (i * 7 + sh) % n; im[i].f = (im[i].v + 1 + i / 40) % n; im[i].to = (i / 2) & 1; im[i].low = i % 3 == 0; vs_check(g->fixes(im[i].v, im[i].to ? 1 : -1, im[i].f, im[i].low), "there is room"); if (i == 150 && cp < 4) g = variant(g0, cp); }
  CliqueEntry *e = g->fixEntries(); int *z = g->toZero(), *o = g->toOne(); for (int i = 0; i < k; i++) { bool found = false; int b = im[i].v; for (int q = im[i].to ? o[b] : z[b]; q < (im[i].to ? z[b + 1] : o[b]); q++) if ((int)sequenceInCliqueEntry(e[q]) == im[i].f && oneFixesInCliqueEntry(e[q]) == !im[i].low) found = true; vs_check(found, "a registered implication is stored"); }
  for (int b = 0; b < n; b++) for (int q = z[b]; q < z[b + 1]; q++) { bool okq = false; for (int i = 0; i < k; i++) if (im[i].v == b && im[i].to == (q >= o[b]) && (int)sequenceInCliqueEntry(e[q]) == im[i].f && oneFixesInCliqueEntry(e[q]) == !im[i].low) okq = true; vs_check(okq, "nothing else is stored"); } vs_reach("many"); if (g != &g0) delete g;
#endif
}
