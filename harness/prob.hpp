// A small symbolic MIP: data arrays, feasibility of a symbolic point, cut oracles.
#pragma once
#include "symsolver.hpp"
struct Prob {
  int n, m; std::vector<double> a, lo, up, rl, ru, x; std::vector<char> isint, nz; std::vector<double> y; bool gaps;
  Prob(int nn, int mm) : n(nn), m(mm), a(nn * mm + 1), lo(nn), up(nn), rl(mm + 1), ru(mm + 1), x(nn), isint(nn), nz(nn * mm + 1), y(nn), gaps(false) { for (int i = 0; i < n * m; i++) nz[i] = 2; }
  double &A(int i, int j) { return a[i * n + j]; }
  void load(SymSolver &s) { for (int i = 0; i < n * m; i++) if (nz[i] == 2) nz[i] = a[i] != 0.0; s.gaps = gaps; s.load(n, m, &a[0], &nz[0], &lo[0], &up[0], &isint[0], &rl[0], &ru[0], &x[0]); }
  // a point inside the column bounds (window [wl,wu] for infinite ones), integral where required
  void point(int wl, int wu, int cg = -2) {
    for (int j = 0; j < n; j++) { if (isint[j]) y[j] = vs_int("y", wl, wu); else y[j] = vs_real("yc", wl, wu, cg);
      if (lo[j] > -1e30) vs_assume(y[j] >= lo[j]); if (up[j] < 1e30) vs_assume(y[j] <= up[j]); }
  }
  double act(int i, const double *p) { double s = 0; for (int j = 0; j < n; j++) if (nz[i * n + j]) s += A(i, j) * p[j]; return s; }
  double rtol = 0; // rows of the feasible point may be missed by this (decimal data)
  void assumeRows() { for (int i = 0; i < m; i++) { double s = act(i, &y[0]); if (rl[i] > -1e30) vs_assume(s >= rl[i] - rtol); if (ru[i] < 1e30) vs_assume(s <= ru[i] + rtol); } }
  void checkCuts(const OsiCuts &cs, double tol, const char *msg) { for (int i = 0; i < cs.sizeRowCuts(); i++) vs_check(rowCutHolds(cs.rowCut(i), &y[0], tol), msg); for (int i = 0; i < cs.sizeColCuts(); i++) vs_check(colCutHolds(cs.colCut(i), &y[0], tol), msg); }
};
// case split over a table
static inline double pickFrom(const char *name, const double *t, int k) { return t[vs_pick(vs_int(name, 0, k - 1))]; }
static inline int pickInt(const char *name, int lo, int hi) { return vs_pick(vs_int(name, lo, hi)); }
