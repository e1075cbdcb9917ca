// A solver whose problem data and relaxation solution are given by the harness.
#pragma once
#include "vs.h"
#include <cmath>
#include <cfloat>
#include <cstring>
#include <vector>
#include <string>
#include "OsiSolverInterface.hpp"
#include "OsiRowCut.hpp"
#include "OsiColCut.hpp"
#include "OsiCuts.hpp"
#include "CoinPackedMatrix.hpp"
#include "CoinWarmStart.hpp"
#include "CoinWarmStartBasis.hpp"
#include "CoinFinite.hpp"
static const double INF = COIN_DBL_MAX;
template <class T> static T *dup(const T *p, int n) { if (!p) return NULL; T *q = new T[n ? n : 1]; for (int i = 0; i < n; i++) q[i] = p[i]; return q; }

class SymSolver : public OsiSolverInterface {
public:
  int n, m; double *cl, *cu, *x, *obj, *rc; char *isInt; mutable char *ctype; double *rl, *ru, *rhs, *range, *act, *dual; char *sense; CoinPackedMatrix *byRow, *byCol; double objSense_;
  mutable int writes;               // modifications requested through the interface
  // optional tableau (Gomory-type generators): basis and rows of B^-1 A
  bool haveBasis; int *cstat, *rstat, *basics; double *binvA /* m x n */, *binv /* m x m */; double objVal;
  SymSolver() : n(0), m(0), cl(0), cu(0), x(0), obj(0), rc(0), isInt(0), ctype(0), rl(0), ru(0), rhs(0), range(0), act(0), dual(0), sense(0), byRow(0), byCol(0), objSense_(1.0), writes(0), haveBasis(false), cstat(0), rstat(0), basics(0), binvA(0), binv(0), objVal(0), gaps(false) {}
  bool gaps; // leave an unused slot (holding rubbish) after every row and column of the matrices
  static void spread(CoinPackedMatrix *&M) { int maj = M->getMajorDim(), k = M->getNumElements(); double *e = new double[k + 2 * maj + 1]; int *ix = new int[k + 2 * maj + 1], *len = new int[maj + 1]; CoinBigIndex *st = new CoinBigIndex[maj + 1]; int q = 0; for (int i = 0; i < maj; i++) { st[i] = q; len[i] = M->getVectorLengths()[i]; for (int c = 0; c < len[i]; c++) { e[q] = M->getElements()[M->getVectorStarts()[i] + c]; ix[q++] = M->getIndices()[M->getVectorStarts()[i] + c]; } for (int g = 0; g < 2; g++) { e[q] = 7; ix[q++] = 0; } } st[maj] = q; CoinPackedMatrix *G = new CoinPackedMatrix(); G->assignMatrix(M->isColOrdered(), M->getMinorDim(), maj, k, e, ix, st, len, maj, q); delete M; M = G; }
  // dense a[m*n] with presence mask (nz==NULL: entries != 0); all arrays are copied
  void load(int nn, int mm, const double *a, const char *nz, const double *lo, const double *up, const char *integer, const double *rlo, const double *rup, const double *sol) {
    n = nn; m = mm; cl = dup(lo, n); cu = dup(up, n); isInt = dup(integer, n); rl = dup(rlo, m); ru = dup(rup, m); x = dup(sol, n); obj = new double[n + 1]; rc = new double[n + 1]; ctype = new char[n + 1];
    for (int j = 0; j < n; j++) { obj[j] = 0; rc[j] = 0; ctype[j] = 0; }
    rhs = new double[m + 1]; range = new double[m + 1]; act = new double[m + 1]; dual = new double[m + 1]; sense = new char[m + 1];
    for (int i = 0; i < m; i++) { dual[i] = 0; setSense(i); }
    double *e = new double[n * m + 1]; int *ix = new int[n * m + 1]; int *st = new int[m + 1]; int k = 0; st[0] = 0;
    for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) { bool there = nz ? nz[i * n + j] != 0 : a[i * n + j] != 0.0; if (there) { e[k] = a[i * n + j]; ix[k] = j; k++; } } st[i + 1] = k; }
    byRow = new CoinPackedMatrix(false, n, m, k, e, ix, st, (const int *)NULL); byCol = new CoinPackedMatrix(); byCol->reverseOrderedCopyOf(*byRow); if (gaps) { spread(byRow); spread(byCol); }
    for (int i = 0; i < m; i++) { double s = 0; for (int q = st[i]; q < st[i + 1]; q++) s += e[q] * x[ix[q]]; act[i] = s; }
    delete[] e; delete[] ix; delete[] st;
  }
  void setSense(int i) { // from finite/infinite bounds; equality is decided by the data
    bool fl = rl[i] > -INF, fu = ru[i] < INF; range[i] = 0;
    if (fl && fu) { if (rl[i] == ru[i]) { sense[i] = 'E'; rhs[i] = ru[i]; } else { sense[i] = 'R'; rhs[i] = ru[i]; range[i] = ru[i] - rl[i]; } }
    else if (fu) { sense[i] = 'L'; rhs[i] = ru[i]; } else if (fl) { sense[i] = 'G'; rhs[i] = rl[i]; } else { sense[i] = 'N'; rhs[i] = 0; }
  }
  SymSolver(const SymSolver &s) : OsiSolverInterface(s), n(s.n), m(s.m), cl(dup(s.cl, n)), cu(dup(s.cu, n)), x(dup(s.x, n)), obj(dup(s.obj, n)), rc(dup(s.rc, n)), isInt(dup(s.isInt, n)), ctype(dup(s.ctype, n)), rl(dup(s.rl, m)), ru(dup(s.ru, m)), rhs(dup(s.rhs, m)), range(dup(s.range, m)), act(dup(s.act, m)), dual(dup(s.dual, m)), sense(dup(s.sense, m)), byRow(new CoinPackedMatrix(*s.byRow)), byCol(new CoinPackedMatrix(*s.byCol)), objSense_(s.objSense_), writes(0), haveBasis(s.haveBasis), cstat(dup(s.cstat, n)), rstat(dup(s.rstat, m)), basics(dup(s.basics, m)), binvA(dup(s.binvA, n * m)), binv(dup(s.binv, m * m)), objVal(s.objVal), gaps(s.gaps) {}
  virtual ~SymSolver() { delete[] cl; delete[] cu; delete[] x; delete[] obj; delete[] rc; delete[] isInt; delete[] ctype; delete[] rl; delete[] ru; delete[] rhs; delete[] range; delete[] act; delete[] dual; delete[] sense; delete byRow; delete byCol; delete[] cstat; delete[] rstat; delete[] basics; delete[] binvA; delete[] binv; }
  OsiSolverInterface *clone(bool) const { return new SymSolver(*this); }
  // queries
  int getNumCols() const { return n; }
  int getNumRows() const { return m; }
  CoinBigIndex getNumElements() const { return byRow->getNumElements(); }
  const double *getColLower() const { return cl; }
  const double *getColUpper() const { return cu; }
  const char *getRowSense() const { return sense; }
  const double *getRightHandSide() const { return rhs; }
  const double *getRowRange() const { return range; }
  const double *getRowLower() const { return rl; }
  const double *getRowUpper() const { return ru; }
  const double *getObjCoefficients() const { return obj; }
  double getObjSense() const { return objSense_; }
  bool isContinuous(int j) const { return !isInt[j]; }
  bool isInteger(int j) const { return isInt[j]; }
  bool isBinary(int j) const { return isInt[j] && (cu[j] == 1 || cu[j] == 0) && (cl[j] == 0 || cl[j] == 1); }
  bool isIntegerNonBinary(int j) const { return isInt[j] && !isBinary(j); }
  bool isFreeBinary(int j) const { return isInt[j] && cu[j] == 1 && cl[j] == 0; }
  const char *getColType(bool = false) const { for (int j = 0; j < n; j++) ctype[j] = isInt[j] ? (((cu[j] == 1 || cu[j] == 0) && (cl[j] == 0 || cl[j] == 1)) ? 1 : 2) : 0; return ctype; }
  const CoinPackedMatrix *getMatrixByRow() const { return byRow; }
  const CoinPackedMatrix *getMatrixByCol() const { return byCol; }
  double getInfinity() const { return INF; }
  const double *getColSolution() const { return x; }
  const double *getRowPrice() const { return dual; }
  const double *getReducedCost() const { return rc; }
  const double *getRowActivity() const { return act; }
  double getObjValue() const { return objVal; }
  int getIterationCount() const { return 0; }
  bool isAbandoned() const { return false; }
  bool isProvenOptimal() const { return true; }
  bool isProvenPrimalInfeasible() const { return false; }
  bool isProvenDualInfeasible() const { return false; }
  bool isIterationLimitReached() const { return false; }
  // modifications (counted)
  void setObjCoeff(int j, double v) { writes++; obj[j] = v; }
  void setObjSense(double s) { writes++; objSense_ = s; }
  void setColLower(int j, double v) { writes++; cl[j] = v; }
  void setColUpper(int j, double v) { writes++; cu[j] = v; }
  void setRowLower(int i, double v) { writes++; rl[i] = v; setSense(i); }
  void setRowUpper(int i, double v) { writes++; ru[i] = v; setSense(i); }
  void setRowType(int, char, double, double) { writes++; }
  void setColSolution(const double *s) { writes++; for (int j = 0; j < n; j++) x[j] = s[j]; }
  void setRowPrice(const double *) { writes++; }
  void setContinuous(int j) { writes++; isInt[j] = 0; }
  void setInteger(int j) { writes++; isInt[j] = 1; }
  void initialSolve() { writes++; }
  void resolve() { writes++; }
  void branchAndBound() { writes++; }
  void addCol(const CoinPackedVectorBase &, const double, const double, const double) { writes++; }
  void deleteCols(const int, const int *) { writes++; }
  void addRow(const CoinPackedVectorBase &, const double, const double) { writes++; }
  void addRow(const CoinPackedVectorBase &, const char, const double, const double) { writes++; }
  // rows deleted / added (kept apart from the loaded data)
  std::vector<int> deleted; std::vector<CoinPackedVector> addedRow; std::vector<double> addedLo, addedUp;
  void deleteRows(const int k, const int *which) { writes++; for (int i = 0; i < k; i++) deleted.push_back(which[i]); }
  void addRows(const int k, const CoinBigIndex *st, const int *col, const double *el, const double *lo, const double *up) { writes++; for (int i = 0; i < k; i++) { addedRow.push_back(CoinPackedVector(st[i + 1] - st[i], col + st[i], el + st[i], false)); addedLo.push_back(lo[i]); addedUp.push_back(up[i]); } }
  void loadProblem(const CoinPackedMatrix &, const double *, const double *, const double *, const double *, const double *) { writes++; }
  void assignProblem(CoinPackedMatrix *&, double *&, double *&, double *&, double *&, double *&) { writes++; }
  void loadProblem(const CoinPackedMatrix &, const double *, const double *, const double *, const char *, const double *, const double *) { writes++; }
  void assignProblem(CoinPackedMatrix *&, double *&, double *&, double *&, char *&, double *&, double *&) { writes++; }
  void loadProblem(const int, const int, const CoinBigIndex *, const int *, const double *, const double *, const double *, const double *, const double *, const double *) { writes++; }
  void loadProblem(const int, const int, const CoinBigIndex *, const int *, const double *, const double *, const double *, const double *, const char *, const double *, const double *) { writes++; }
  void writeMps(const char *, const char *, double) const {}
  void applyRowCut(const OsiRowCut &) { writes++; }
  void applyColCut(const OsiColCut &) { writes++; }
  // basis / tableau
  CoinWarmStart *getEmptyWarmStart() const { return NULL; }
  CoinWarmStart *getWarmStart() const { return NULL; }
  bool setWarmStart(const CoinWarmStart *) { writes++; return true; }
  std::vector<double *> getDualRays(int, bool) const { return std::vector<double *>(); }
  std::vector<double *> getPrimalRays(int) const { return std::vector<double *>(); }
  bool basisIsAvailable() const { return haveBasis; }
  void enableFactorization() const {}
  void disableFactorization() const {}
  void getBasisStatus(int *cs, int *rs) const { for (int j = 0; j < n; j++) cs[j] = cstat[j]; for (int i = 0; i < m; i++) rs[i] = rstat[i]; }
  void getBasics(int *ix) const { for (int i = 0; i < m; i++) ix[i] = basics[i]; }
  void getBInvARow(int r, double *z, double *slack) const { for (int j = 0; j < n; j++) z[j] = binvA[r * n + j]; if (slack) for (int i = 0; i < m; i++) slack[i] = binv[r * m + i]; }
  void getBInvRow(int r, double *z) const { for (int i = 0; i < m; i++) z[i] = binv[r * m + i]; }
};

// ---------------------------------------------------------------- cut oracles (no path forks)
// value of a packed row at point y
static inline double dotAt(const CoinPackedVector &r, const double *y) { double s = 0; const int k = r.getNumElements(); const int *ix = r.getIndices(); const double *e = r.getElements(); for (int i = 0; i < k; i++) s += e[i] * y[ix[i]]; return s; }
static inline bool rowCutHolds(const OsiRowCut &c, const double *y, double tol) {
  double s = dotAt(c.row(), y); bool ok = true; double lb = c.lb(), ub = c.ub();
  if (lb > -1e30) ok = vAnd(ok, s >= lb - tol);
  if (ub < 1e30) ok = vAnd(ok, s <= ub + tol);
  return ok;
}
static inline bool colCutHolds(const OsiColCut &c, const double *y, double tol) {
  bool ok = true; const CoinPackedVector &l = c.lbs(), &u = c.ubs();
  for (int i = 0; i < l.getNumElements(); i++) ok = vAnd(ok, y[l.getIndices()[i]] >= l.getElements()[i] - tol);
  for (int i = 0; i < u.getNumElements(); i++) ok = vAnd(ok, y[u.getIndices()[i]] <= u.getElements()[i] + tol);
  return ok;
}
// every cut of cs is well formed for a problem with n columns
static inline void checkWellFormed(const OsiCuts &cs, int n, bool strictBounds = true) {
  for (int i = 0; i < cs.sizeRowCuts(); i++) {
    const OsiRowCut *c = cs.rowCutPtr(i); const CoinPackedVector &r = c->row(); const int k = r.getNumElements(); const int *ix = r.getIndices(); const double *e = r.getElements();
    bool okIdx = true; for (int q = 0; q < k; q++) { okIdx = vAnd(okIdx, vAnd(ix[q] >= 0, ix[q] < n)); for (int p = 0; p < q; p++) okIdx = vAnd(okIdx, ix[p] != ix[q]); }
    vs_check(okIdx, "row cut has indices in range and without duplicates");
    bool fin = true; for (int q = 0; q < k; q++) fin = vAnd(fin, vAnd(e[q] <= 1e50, e[q] >= -1e50)); vs_check(fin, "row cut coefficients are finite numbers");
    double lb = c->lb(), ub = c->ub(); vs_check(vAnd(lb == lb, ub == ub), "row cut bounds are numbers");
    if (strictBounds || k || !(lb > ub)) vs_check(vAnd(lb < 1e50, ub > -1e50), "row cut bounds are not the wrong infinity"); // an empty cut with lb > ub is the library's way to say infeasible
  }
  for (int i = 0; i < cs.sizeColCuts(); i++) {
    const OsiColCut *c = cs.colCutPtr(i);
    for (int w = 0; w < 2; w++) { const CoinPackedVector &r = w ? c->ubs() : c->lbs(); bool ok = true; for (int q = 0; q < r.getNumElements(); q++) { ok = vAnd(ok, vAnd(r.getIndices()[q] >= 0, r.getIndices()[q] < n)); ok = vAnd(ok, r.getElements()[q] == r.getElements()[q]); } vs_check(ok, "column cut has indices in range and numeric bounds"); }
  }
}
static inline void obsCuts(const OsiCuts &cs) {
  vs_obs_int("nrow", cs.sizeRowCuts()); vs_obs_int("ncol", cs.sizeColCuts());
  for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut *c = cs.rowCutPtr(i); vs_obs("lb", c->lb()); vs_obs("ub", c->ub()); vs_obs_int("len", c->row().getNumElements()); for (int q = 0; q < c->row().getNumElements(); q++) { vs_obs_int("idx", c->row().getIndices()[q]); vs_obs("el", c->row().getElements()[q]); } }
  for (int i = 0; i < cs.sizeColCuts(); i++) { const OsiColCut *c = cs.colCutPtr(i); for (int w = 0; w < 2; w++) { const CoinPackedVector &r = w ? c->ubs() : c->lbs(); vs_obs_int("len", r.getNumElements()); for (int q = 0; q < r.getNumElements(); q++) { vs_obs_int("idx", r.getIndices()[q]); vs_obs("el", r.getElements()[q]); } } }
}
// a row cut is violated by x by at least d
static inline bool rowCutViolated(const OsiRowCut &c, const double *x, double d) { double s = dotAt(c.row(), x); bool v = false; if (c.lb() > -1e30) v = vOr(v, s <= c.lb() - d); if (c.ub() < 1e30) v = vOr(v, s >= c.ub() + d); return v; }
static inline bool sameVector(const CoinPackedVector &a, const CoinPackedVector &b) { if (a.getNumElements() != b.getNumElements()) return false; bool ok = true; for (int q = 0; q < a.getNumElements(); q++) ok = vAnd(ok, vAnd(a.getIndices()[q] == b.getIndices()[q], a.getElements()[q] == b.getElements()[q])); return ok; }
// the cuts of b from number fr / fc on are those of a, in the same order
static inline void checkSameCuts(const OsiCuts &a, const OsiCuts &b, const char *msg, int fr = 0, int fc = 0) {
  vs_check(b.sizeRowCuts() - fr == a.sizeRowCuts() && b.sizeColCuts() - fc == a.sizeColCuts(), msg);
  for (int i = 0; i < a.sizeRowCuts() && i + fr < b.sizeRowCuts(); i++) { const OsiRowCut &r = a.rowCut(i), &s = b.rowCut(i + fr); bool ok = sameVector(r.row(), s.row()); ok = vAnd(ok, vAnd(r.lb() == s.lb(), r.ub() == s.ub())); ok = vAnd(ok, vAnd(r.globallyValid() == s.globallyValid(), r.effectiveness() == s.effectiveness())); vs_check(ok, msg); }
  for (int i = 0; i < a.sizeColCuts() && i + fc < b.sizeColCuts(); i++) { const OsiColCut &r = a.colCut(i), &s = b.colCut(i + fc); bool ok = vAnd(sameVector(r.lbs(), s.lbs()), sameVector(r.ubs(), s.ubs())); vs_check(vAnd(ok, r.globallyValid() == s.globallyValid()), msg); }
}
