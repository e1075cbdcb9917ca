#include "prob.hpp"
#include "CglStored.hpp"
#include "CglTreeInfo.hpp"
#include <cstdio>
#include <cstring>
#include <unistd.h>
static CglStored *variant(CglStored &g, int k) { if (k == 0) return new CglStored(g); if (k == 1) return dynamic_cast<CglStored *>(g.clone()); CglStored *h = new CglStored(1); int ix[] = {0}; double el[] = {7}; h->addCut(-3, -3, 1, ix, el); *h = g; CglStored *self = h; *h = *self; return h; }
extern "C" void vs_main() {
#if SC == 1 // three stored cuts through every way of adding them: exactly the violated ones come back
  const int n = 2; Prob p(n, 1); static const double C[] = {-1, 2}; static const double Q[] = {1e-5, 0.25, 0, 1};
  for (int j = 0; j < n; j++) { p.lo[j] = 0; p.up[j] = 2; p.isint[j] = 1; p.x[j] = vs_real("x", 0, 2, -3); p.A(0, j) = 1; } p.rl[0] = -INF; p.ru[0] = 4; SymSolver si; p.load(si);
  CglStored g0(n); vs_check(g0.getRequiredViolation() == 1e-5, "documented default"); double req = pickFrom("req", Q, 4); if (req != 1e-5) g0.setRequiredViolation(req); vs_check(g0.getRequiredViolation() == req, "required violation is what was set");
  const int k = 3; double lb[k], ub[k], a[k][2]; int how = pickInt("how", 0, 3);
  for (int i = 0; i < k; i++) { int s = i == 2 ? pickInt("sense", 0, 3) : i; double b = vs_real("b", -2, 3, -2); lb[i] = s == 0 ? -INF : b; ub[i] = s == 1 ? INF : b; if (s == 3) ub[i] = b + 0.5; a[i][0] = i == 2 ? pickFrom("c", C, 2) : 1; a[i][1] = i == 2 ? 1 : i == 1 ? -1 : 1; }
  int ix[] = {0, 1};
  if (how == 0) for (int i = 0; i < k; i++) g0.addCut(lb[i], ub[i], 2, ix, a[i]);
  else if (how == 1) for (int i = 0; i < k; i++) { CoinPackedVector v(2, ix, a[i]); g0.addCut(lb[i], ub[i], v); }
  else { OsiCuts o; for (int i = 0; i < k; i++) { OsiRowCut r; r.setLb(lb[i]); r.setUb(ub[i]); r.setRow(2, ix, a[i]); r.setEffectiveness(i); if (how == 2) g0.addCut(r); else o.insert(r); } if (how == 3) g0.addCut(o); }
  vs_check(g0.sizeRowCuts() == k, "every added cut is stored"); CglStored *g = how ? variant(g0, how - 1) : &g0; vs_check(vAnd(g->sizeRowCuts() == k, g->getRequiredViolation() == req), "a copy stores the same cuts");
  for (int i = 0; i < k; i++) { const OsiRowCut *c = g->rowCutPointer(i); bool ok = vAnd(vAnd(c->lb() == lb[i], c->ub() == ub[i]), c->row().getNumElements() == 2); ok = vAnd(ok, vAnd(c->row()[0] == a[i][0], c->row()[1] == a[i][1])); vs_check(ok, "cuts are stored as given"); vs_check(c->effectiveness() > 1e30, "stored cuts are kept when diving"); }
  OsiCuts cs; OsiRowCut old; old.setLb(-5); old.setUb(5); cs.insert(old); g->generateCuts(si, cs); vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); int at = 1;
  for (int i = 0; i < k; i++) { double s = a[i][0] * p.x[0] + a[i][1] * p.x[1], v = 0; if (ub[i] < 1e30) if (s > ub[i]) v = s - ub[i]; if (lb[i] > -1e30) if (s < lb[i]) v = lb[i] - s;
    if (v >= req) { vs_reach("violated"); vs_check(at < cs.sizeRowCuts(), "a stored cut violated by the required amount is returned"); const OsiRowCut &c = cs.rowCut(at++); vs_check(vAnd(vAnd(c.lb() == lb[i], c.ub() == ub[i]), vAnd(c.row()[0] == a[i][0], c.row()[1] == a[i][1])), "returned cuts are the stored ones, in order"); } else vs_reach("not violated"); }
  vs_check(at == cs.sizeRowCuts(), "no other cut is returned"); if (g != &g0) delete g;
#elif SC == 2 // cuts from implications
  const int n = 4; Prob p(n, 1); static const double U[] = {1, 3, INF}, L[] = {-1, 0, -INF};
  for (int j = 0; j < n; j++) { p.isint[j] = j < 3; p.lo[j] = 0; p.up[j] = 1; p.A(0, j) = 1; } p.rl[0] = -INF; p.ru[0] = INF; p.lo[2] = pickFrom("lo", L, 3); p.up[2] = p.lo[2] < -1e30 ? 3 : pickFrom("up", U, 3); p.isint[2] = pickInt("int", 0, 1); p.up[3] = 2; p.isint[3] = 0;
  vs_assume(!(p.isint[2] && p.lo[2] == 0 && p.up[2] == 1)); // stays outside the 0-1 columns
  for (int j = 0; j < n; j++) { p.x[j] = vs_real("x", -1, 3, -2); vs_assume(vAnd(p.x[j] >= p.lo[j], p.x[j] <= p.up[j])); } SymSolver si; p.load(si);
  CglTreeProbingInfo *ti = new CglTreeProbingInfo(&si); ti->initializeFixing(&si); const int k = 2; int v[k], to[k], f[k], low[k];
  for (int i = 0; i < k; i++) { v[i] = pickInt("v", 0, 1); to[i] = pickInt("to", 0, 1); f[i] = i ? 2 : pickInt("f", 0, 1) ? 1 - v[0] : 3; low[i] = pickInt("low", 0, 1); if (f[i] == 2 && ((low[i] && p.lo[2] < -1e30) || (!low[i] && p.up[2] > 1e30))) vs_end(); ti->fixes(v[i], to[i] ? 1 : -1, f[i], low[i]); }
  Prob o = p; int fixcol = pickInt("fixv", 0, 2); if (fixcol < 2) { p.lo[fixcol] = p.up[fixcol] = si.cl[fixcol] = si.cu[fixcol] = p.x[fixcol] = si.x[fixcol] = pickInt("at", 0, 1); }
  CglStored g0; g0.setRequiredViolation(0.125); g0.setProbingInfo(ti); CglStored *g = variant(g0, pickInt("copy", 0, 2)); OsiCuts cs; g->generateCuts(si, cs); delete g; obsCuts(cs); checkWellFormed(cs, n); if (cs.sizeRowCuts()) vs_reach("cut generated");
  if (p.lo[2] > -1e30 && p.up[2] < 1e30) for (int i = 0; i < k; i++) { int j = f[i]; if (p.lo[v[i]] == p.up[v[i]]) continue; double l = p.lo[j], u = p.up[j], on = to[i] ? 1 - p.x[v[i]] : p.x[v[i]]; double viol = low[i] ? p.x[j] - l - (u - l) * on : u - (u - l) * on - p.x[j]; vs_check(vImp(viol > 0.126, cs.sizeRowCuts() > 0), "a violated implication gives a cut"); }
  for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &c = cs.rowCut(i); double s = dotAt(c.row(), &p.x[0]); vs_check(c.ub() < 1e30 ? s >= c.ub() + 0.124 : s <= c.lb() - 0.124, "implication cuts are violated by the required amount"); }
  p.point(-3, 5); for (int i = 0; i < k; i++) vs_assume(vImp(p.y[v[i]] == to[i], p.y[f[i]] == (low[i] ? o.lo[f[i]] : o.up[f[i]]))); p.checkCuts(cs, 1e-6, "implication cuts keep every point that satisfies the implications");
#elif SC == 3 // saved solution and bounds
  const int n = 3; double sol[n], lo[n], up[n], ob = vs_real("obj", -9, 9, -1); for (int j = 0; j < n; j++) { sol[j] = vs_real("s", -4, 4, -1); lo[j] = vs_real("l", -4, 4, -1); up[j] = vs_real("u", -4, 4, -1); }
  CglStored g0(n); vs_check(g0.bestSolution() == NULL && g0.bestObjective() > 1e30, "nothing saved yet"); if (pickInt("twice", 0, 1)) g0.saveStuff(1.0, lo, up, sol); bool have = pickInt("have", 0, 1); g0.saveStuff(ob, have ? sol : NULL, lo, up); int k = pickInt("copy", 0, 3); CglStored *g = k == 3 ? &g0 : variant(g0, k);
  double s1[n]; for (int j = 0; j < n; j++) { s1[j] = sol[j]; sol[j] = 99; } vs_check((g->bestSolution() != NULL) == have, "saved solution present"); if (have) { vs_reach("solution"); vs_check(g->bestObjective() == ob, "best objective is kept"); for (int j = 0; j < n; j++) vs_check(g->bestSolution()[j] == s1[j], "best solution is kept"); } else vs_check(g->bestObjective() > 1e30, "no objective without solution");
  for (int j = 0; j < n; j++) vs_check(vAnd(g->tightLower()[j] == lo[j], g->tightUpper()[j] == up[j]), "tightened bounds are kept"); if (g != &g0) delete g;
#elif SC == 4 // many cuts: storage grows, nothing lost
  const int n = 2, k = 12; Prob p(n, 1); for (int j = 0; j < n; j++) { p.lo[j] = 0; p.up[j] = 2; p.isint[j] = 1; p.x[j] = vs_real("x", 0, 2, -2); p.A(0, j) = 1; } p.rl[0] = -INF; p.ru[0] = 4; SymSolver si; p.load(si); CglStored g(n); int ix[] = {0, 1}; double el[] = {1, 1}; for (int i = 0; i < k; i++) g.addCut(-INF, 0.25 * i, 2, ix, el); OsiCuts cs; g.generateCuts(si, cs); double s = p.x[0] + p.x[1]; int want = 0; for (int i = 0; i < k; i++) if (s >= 0.25 * i + 1e-5) want++; vs_check(cs.sizeRowCuts() == want, "exactly the violated cuts"); vs_reach("many");
#elif SC == 5 // cuts read from a file, complete or truncated anywhere
  const int K = 3; char buf[400]; long at = 0, end[K + 1]; int len[K]; double lb[K], ub[K], co[K][3]; int ix[K][3]; int k = pickInt("cuts", 0, K); end[0] = 0;
  for (int i = 0; i < k; i++) { len[i] = i == 1 ? pickInt("len", 0, 3) : i + 1; lb[i] = vs_real("lb", -4, 4, -2); ub[i] = vs_real("ub", -4, 4, -2); memcpy(buf + at, len + i, 4); at += 4; memcpy(buf + at, lb + i, 8); at += 8; memcpy(buf + at, ub + i, 8); at += 8; for (int q = 0; q < len[i]; q++) { ix[i][q] = (i + q) % 3; memcpy(buf + at, &ix[i][q], 4); at += 4; } for (int q = 0; q < len[i]; q++) { co[i][q] = vs_real("c", -3, 3, -1); memcpy(buf + at, &co[i][q], 8); at += 8; } end[i + 1] = at; }
  int m1 = -1; memcpy(buf + at, &m1, 4); int full = k; int t = pickInt("trunc", 0, 8); long size = at + 4; if (t && k) { size = t == 8 ? at : end[k - 1] + (t == 1 ? 0 : t == 2 ? 4 : t == 3 ? 12 : t == 4 ? 20 : t == 5 ? 20 + 4 * len[k - 1] - (len[k - 1] ? 4 : 0) : t == 6 ? 20 + 4 * len[k - 1] : at - end[k - 1] - 8); if (size < at) full = k - 1; }
  const char *nm = vs_file(buf, size); { CglStored g0(nm); vs_obs_int("n", g0.sizeRowCuts()); vs_check(g0.sizeRowCuts() == full, "every complete cut of the file is stored"); CglStored g(g0); for (int i = 0; i < full; i++) { const OsiRowCut *c = g.rowCutPointer(i); bool ok = vAnd(vAnd(c->lb() == lb[i], c->ub() == ub[i]), c->row().getNumElements() == len[i]); for (int q = 0; q < len[i] && q < c->row().getNumElements(); q++) ok = vAnd(ok, vAnd(c->row().getIndices()[q] == ix[i][q], c->row().getElements()[q] == co[i][q])); vs_check(ok, "cuts read from a file are those written"); vs_reach("read"); } vs_check(g0.getRequiredViolation() == 1e-5 && g0.bestSolution() == NULL, "documented default"); if (full < k) vs_reach("truncated"); }
#endif
}
