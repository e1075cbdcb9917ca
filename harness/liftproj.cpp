#include "prob.hpp"
#include "CglLiftAndProject.hpp"
static const char *MSG = "lift-and-project cut keeps every feasible point";
struct Basis : public CoinWarmStart { CoinWarmStart *clone() const { return new Basis(); } };
static int solves, warm, refuse; // cone problems solved, warm starts used, answers without optimum still allowed
// A solver for the cut generating problem: any answer that satisfies the bounds and equations it was given is allowed.
struct Cone : public SymSolver {
  bool isCone, optimal; CoinPackedMatrix *B; double *bl, *bu, *bo, *brl, *bru, *w; int ncol0, nr; std::vector<CoinPackedVector> cols; std::vector<double> clo, cup;
  Cone() : isCone(false), optimal(true), B(0), bl(0), bu(0), bo(0), brl(0), bru(0), w(0), ncol0(0), nr(0) {}
  Cone(const Cone &c) : SymSolver(c), isCone(false), optimal(true), B(0), bl(0), bu(0), bo(0), brl(0), bru(0), w(0), ncol0(0), nr(0) {}
  ~Cone() { delete B; delete[] bl; delete[] bu; delete[] bo; delete[] brl; delete[] bru; delete[] w; }
  OsiSolverInterface *clone(bool copy) const { return copy ? new Cone(*this) : new Cone(); }
  void assignProblem(CoinPackedMatrix *&m, double *&l, double *&u, double *&o, double *&rl_, double *&ru_) { isCone = true; B = m; bl = l; bu = u; bo = o; brl = rl_; bru = ru_; ncol0 = m->getNumCols(); nr = m->getNumRows(); w = new double[ncol0 + 3]; m = NULL; l = u = o = rl_ = ru_ = NULL; }
  void addCol(const CoinPackedVectorBase &v, const double lo, const double up, const double) { cols.push_back(CoinPackedVector(v.getNumElements(), v.getIndices(), v.getElements(), false)); clo.push_back(lo); cup.push_back(up); }
  void deleteCols(const int k, const int *ix) { vs_check(k == (int)cols.size(), "the added columns are deleted"); for (int i = 0; i < k; i++) vs_check(ix[i] >= ncol0 && ix[i] < ncol0 + k, "the added columns are deleted"); cols.clear(); clo.clear(); cup.clear(); }
  void go() {
    optimal = !refuse || pickInt("optimal", 0, 1); solves++; if (!optimal) { refuse--; return; }
    int nc = ncol0 + cols.size(); std::vector<double> r(nr, 0.0);
    for (int j = 0; j < nc; j++) { double lo = j < ncol0 ? bl[j] : clo[j - ncol0], up = j < ncol0 ? bu[j] : cup[j - ncol0]; w[j] = vs_real("w", lo < -1e30 ? -4 : lo, up > 1e30 ? 4 : up, -2);
      const int *ix; const double *e; int k; if (j < ncol0) { int s = B->getVectorStarts()[j]; k = B->getVectorLengths()[j]; ix = B->getIndices() + s; e = B->getElements() + s; } else { const CoinPackedVector &v = cols[j - ncol0]; k = v.getNumElements(); ix = v.getIndices(); e = v.getElements(); }
      for (int q = 0; q < k; q++) r[ix[q]] += e[q] * w[j]; }
    for (int i = 0; i < nr; i++) { vs_assume(r[i] >= brl[i]); vs_assume(r[i] <= bru[i]); }
  }
  void initialSolve() { if (!isCone) writes++; else go(); }
  void resolve() { if (!isCone) writes++; else go(); }
  bool isProvenOptimal() const { return optimal; }
  const double *getColSolution() const { return isCone ? w : x; }
  CoinWarmStart *getWarmStart() const { return new Basis(); }
  bool setWarmStart(const CoinWarmStart *s) { if (!isCone) writes++; warm++; delete s->clone(); return true; }
  int getNumCols() const { return isCone ? ncol0 + (int)cols.size() : n; }
  int getNumRows() const { return isCone ? nr : m; }
};
// canonical form: every row >= its right-hand side, bounds of the columns as rows
static void rows(Prob &p, int own) { int i = own; for (int j = 0; j < p.n; j++) for (int s = 0; s < 2; s++) if (i < p.m) { for (int q = 0; q < p.n; q++) p.A(i, q) = 0; p.A(i, j) = s ? -1 : 1; p.rl[i] = s ? -p.up[j] : p.lo[j]; p.ru[i] = INF; i++; } }
static void after(Prob &p, Cone &si, OsiCuts &cs, int wu) {
  vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); checkWellFormed(cs, p.n); if (cs.sizeRowCuts()) vs_reach("cut generated"); if (cs.sizeRowCuts() > 1) vs_reach("two cuts"); if (warm) vs_reach("warm start");
  // every point of the box (continuous columns: halves) that satisfies the rows
  bool ok = true, some = false; int tot = 1; for (int j = 0; j < p.n; j++) tot *= p.isint[j] ? (int)(p.up[j] - p.lo[j]) + 1 : 2 * wu + 1;
  for (int c = 0; c < tot; c++) { int r = c; for (int j = 0; j < p.n; j++) { int k = p.isint[j] ? (int)(p.up[j] - p.lo[j]) + 1 : 2 * wu + 1; p.y[j] = p.isint[j] ? p.lo[j] + r % k : 0.5 * (r % k); r /= k; } bool in = true; for (int i = 0; i < p.m; i++) in = in && p.act(i, &p.y[0]) >= p.rl[i]; if (!in) continue; some = true; for (int i = 0; i < cs.sizeRowCuts(); i++) ok = vAnd(ok, rowCutHolds(cs.rowCut(i), &p.y[0], 1e-6)); }
  vs_check(ok, MSG); if (some) vs_reach("feasible");
}
extern "C" void vs_main() {
#if SC == 1 // two columns (binary, general integer or continuous), one row and the bounds
  static const double A[] = {-1, 0, 2}; const int KI[] = {1, 1, 0}; Prob p(2, 5); for (int j = 0; j < 2; j++) { p.A(0, j) = pickFrom("a", A, 3); int k = pickInt("kind", 0, j ? 2 : 1); p.isint[j] = KI[k]; p.lo[j] = 0; p.up[j] = k == 1 ? 2 : 1; p.x[j] = j && p.up[j] == 1 ? vs_real("x", 0, 1, -1) : 0.5; } p.rl[0] = pickInt("b", 0, 1); p.ru[0] = INF; rows(p, 1);
  Cone si; p.load(si); CglLiftAndProject g; int mode = pickInt("mode", 0, 2); if (mode == 1) g.setBeta(-1); refuse = mode == 2; OsiCuts cs; g.generateCuts(si, cs); after(p, si, cs, 1);
#elif SC == 2 // three columns, two own rows, fewer rows than the canonical form would have
  static const double A[] = {-1, 2}; Prob p(3, 6); for (int j = 0; j < 3; j++) { p.isint[j] = j < 2; p.lo[j] = 0; p.up[j] = j == 1 ? 1 + pickInt("gen", 0, 1) : 1; p.x[j] = 0.5; for (int i = 0; i < 2; i++) p.A(i, j) = i ? (j == 1 ? pickFrom("a", A, 2) : j) : pickFrom("a", A, 2); } for (int i = 0; i < 2; i++) { p.rl[i] = i ? 0 : pickInt("b", 0, 1); p.ru[i] = INF; } rows(p, 2);
  Cone si; p.gaps = pickInt("gaps", 0, 1); p.load(si); CglLiftAndProject g; OsiCuts cs; g.generateCuts(si, cs); p.lo[2] = 0; after(p, si, cs, 1);
#elif SC == 3 // memory: everything is released, whatever the answers; small and empty problems
  int m = pickInt("m", 0, 3); Prob p(2, m); for (int j = 0; j < 2; j++) { p.isint[j] = pickInt("int", 0, 1); p.lo[j] = 0; p.up[j] = 1; p.x[j] = vs_real("x", 0, 1, -1); } rows(p, 0); Cone si; p.load(si); refuse = 2; long b = vs_live_bytes(); { CglLiftAndProject g; OsiCuts cs; g.generateCuts(si, cs); checkWellFormed(cs, 2); } vs_check(vs_live_bytes() == b, "generating cuts releases all its memory"); vs_reach("released");
#endif
}
