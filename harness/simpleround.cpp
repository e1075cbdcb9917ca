#include "prob.hpp"
#include "CglSimpleRounding.hpp"
static const char *MSG = "rounding cut keeps every integer-feasible point";
static void bounds(Prob &p, int j, bool allowCont) {
  static const double L[] = {-INF, -1, 0}, U[] = {0, 2, INF}; p.lo[j] = pickFrom("lo", L, 3); p.up[j] = pickFrom("up", U, 3); p.isint[j] = allowCont ? pickInt("int", 0, 1) : 1;
}
static void run(Prob &p) { SymSolver si; p.load(si); OsiCuts cs; CglSimpleRounding g; g.generateCuts(si, cs); vs_check(si.writes == 0, "solver unchanged"); obsCuts(cs); checkWellFormed(cs, p.n);
  if (cs.sizeRowCuts()) vs_reach("cut generated"); if (cs.sizeRowCuts() > 1) vs_reach("two cuts");
  p.point(-4, 5); p.assumeRows(); p.checkCuts(cs, 1e-6, MSG); }
extern "C" void vs_main() {
#if SC == 1 // one row, mixed columns, every sense
  Prob p(2, 1); for (int j = 0; j < 2; j++) { static const double T[] = {-2, -0.5, 0, 1, 1.5}; p.A(0, j) = pickFrom("a", T, 5); p.x[j] = 0; bounds(p, j, true); }
  double b = vs_real("b", -12, 12, -2); int s = pickInt("sense", 0, 3); p.rl[0] = s == 0 ? -INF : b; p.ru[0] = s == 0 || s == 3 ? b : INF; if (s == 2) p.ru[0] = b + vs_real("r", 0.25, 4, -2);
  run(p);
#elif SC == 2 // two rows over the same three columns: nothing may leak from one row to the next
  Prob p(3, 2); static const double T[] = {-3, 0, 2}; for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) p.A(i, j) = j == 2 ? (i ? 2 : -2) : pickFrom("a", T, 3); double b = vs_real("b", -6, 6, -1); int s = pickInt("sense", 0, 1); p.rl[i] = s ? b : -INF; p.ru[i] = s ? INF : b; }
  for (int j = 0; j < 3; j++) { p.x[j] = 0; p.lo[j] = 0; p.up[j] = 3; p.isint[j] = 1; } p.isint[0] = pickInt("int", 0, 1); p.up[0] = pickInt("inf", 0, 1) ? INF : 3; if (pickInt("fix", 0, 1)) p.lo[1] = p.up[1] = vs_int("f", -1, 2);
  run(p);
#elif SC == 3 // decimal data: k/10^d stands for the decimal number
  const int n = 2; Prob p(n, 1); int ka[n], d = pickInt("d", 1, 3); double sc = d == 1 ? 10 : d == 2 ? 100 : 1000; for (int j = 0; j < n; j++) { static const double T[] = {-7, -1, 1, 2, 6, 14, 35}; ka[j] = (int)pickFrom("a", T, j ? 7 : 7); p.A(0, j) = ka[j] / sc; p.x[j] = 0; p.lo[j] = 0; p.up[j] = 40; p.isint[j] = 1; }
  int kb = vs_int("b", -300, 300); int s = pickInt("sense", 0, 1); double b = kb / sc; p.rl[0] = s ? b : -INF; p.ru[0] = s ? INF : b;
  SymSolver si; p.load(si); OsiCuts cs; CglSimpleRounding g; g.generateCuts(si, cs); obsCuts(cs); checkWellFormed(cs, n); if (cs.sizeRowCuts()) vs_reach("cut generated");
  p.point(0, 40); int t = 0; for (int j = 0; j < n; j++) t += ka[j] * (int)p.y[j]; vs_assume(s ? t >= kb : t <= kb); p.checkCuts(cs, 1e-6, MSG);
#elif SC == 4 // magnitudes: stored zeros, tiny, fractional, huge coefficients
  const int n = 2; Prob p(n, 1); static const double T[] = {0, 1e-13, 0.125, 0.001, 3, 12345.5, 1e8, 2147483646.0, 3e9, 1e15, 0.333333}; for (int j = 0; j < n; j++) { p.A(0, j) = pickFrom("a", T, 11) * (pickInt("neg", 0, 1) ? -1 : 1); p.nz[j] = 1; p.x[j] = 0; p.lo[j] = 0; p.up[j] = 3; p.isint[j] = 1; }
  double b = pickInt("big", 0, 1) ? vs_real("b", -1e10, 1e10, -2) : vs_real("b", -20, 20, -2); int s = pickInt("sense", 0, 1); p.rl[0] = s ? b : -INF; p.ru[0] = s ? INF : b; run(p);
#elif SC == 5 // a row that is skipped for any reason leaves nothing behind for the next rows
  Prob p(3, 3); static const double K[] = {12345.678901, 0.333333, 3e9, 1e-13, 2.5}; static const double B[] = {5, 2.5, -3, 1e6};
  for (int j = 0; j < 3; j++) { p.x[j] = 0; p.lo[j] = j == 2 ? 0 : -2; p.up[j] = 3; p.isint[j] = j < 2; } int k1 = pickInt("k1", 0, 4);
  p.A(0, 0) = K[k1] * (pickInt("neg", 0, 1) ? -1 : 1); p.A(0, 1) = pickInt("neg1", 0, 1) ? -2 : 2; p.A(0, 2) = pickInt("cont", 0, 1); if (p.A(0, 2) != 0) p.lo[2] = -INF; int s = pickInt("sense", 0, 2); p.rl[0] = s ? -1e6 : -INF; p.ru[0] = s == 2 ? -1e6 : 1e6; if (s == 2) { p.rl[0] = p.ru[0] = 0; }
  for (int i = 1; i < 3; i++) { p.A(i, 0) = i == 1 ? (pickInt("n0", 0, 1) ? -2 : 2) : 6; p.A(i, 1) = i == 1 ? 4 : pickInt("n1", 0, 1) ? -4 : 4; p.A(i, 2) = 0; p.rl[i] = -INF; p.ru[i] = pickFrom("b", B, i == 1 ? 3 : 2); if (pickInt("ge", 0, 1)) { p.rl[i] = -p.ru[i]; p.ru[i] = INF; } }
  run(p);
#endif
}
