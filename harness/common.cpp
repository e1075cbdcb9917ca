// What every cut generator promises, whatever cuts it makes.  GEN selects the class; SC 1: settings and copies, SC 2: effects of generating.
#include "prob.hpp"
#include "CglTreeInfo.hpp"
#include <cstdio>
#define S(x) #x
static void bin(Prob &p, int j, double x) { p.lo[j] = 0; p.up[j] = 1; p.isint[j] = 1; p.x[j] = x; }
static double half(const char *nm) { return 0.5 * vs_pick(vs_int(nm, 0, 2)); }
static void none(Prob &p) { for (int i = 0; i < p.n * p.m; i++) p.a[i] = 0; for (int i = 0; i < p.m; i++) { p.rl[i] = -INF; p.ru[i] = 1; } }
static void triangle(Prob &p) { none(p); for (int j = 0; j < p.n; j++) bin(p, j, 0.5); for (int i = 0; i < 3; i++) { p.A(i, i) = 1; p.A(i, (i + 1) % 3) = 1; } p.x[0] = half("x0"); }
#ifndef ASSIGN
#define ASSIGN 1
#endif
// a line of generated code: carries the current value, and is not marked as redundant unless it is the default
static void line(const char *nm, double v, double d) { int k = vs_out_key(nm); if (!k) { vs_check(v == d, "generated code sets every setting that is not the default"); return; } double w = vs_out_value(nm); vs_obs_int("key", k); vs_obs("value", w); vs_check(vAnd(w <= v + 1e-5 * fabs(v), w >= v - 1e-5 * fabs(v)), "generated code sets the current value"); vs_check(vOr(k == '3', vAnd(k == '4', v == d)), "generated code does not drop a setting that is not the default"); }
#define RETURNS(c) vs_check(c, "a setting is what was set last"); 
#if GEN == 1
#include "CglSimpleRounding.hpp"
typedef CglSimpleRounding G; typedef SymSolver Solver;
static void defaults(const G &) {}
static void set(G &) {}
static void expect(const G &) {}
static void other(G &) {}
#define CLASS "CglSimpleRounding"
static void lines(const G &g, const G &d) {  (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 3; j++) { bin(p, j, half("x")); p.up[j] = 4; } for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) p.A(i, j) = 2 + 2 * (i && j == 1); p.ru[i] = i ? 7 : pickInt("b", 3, 4); } p.A(0, 2) = 2 + 4 * pickInt("a", 0, 1); p.load(si); }
static const int N = 3, M = 2;
#elif GEN == 2
#include "CglOddHole.hpp"
typedef CglOddHole G; typedef SymSolver Solver; static double mv, mp; static int me, nl;
static void defaults(const G &g) { vs_check(vAnd(g.getMinimumViolation() == 0.001, vAnd(g.getMinimumViolationPer() == 0.0003, g.getMaximumEntries() == 100)), "documented defaults"); }
static void set(G &g) { mv = vs_real("mv", 0.0625, 0.5, -4); mp = vs_real("mp", 0.0078125, 0.25, -7); me = vs_int("me", 3, 6); nl = pickInt("list", 0, 3); static int w[] = {1, 1, 1, 0}, cs[] = {0, 2, 4, 6}, cm[] = {0, 1, 1, 2, 0, 2}; if (nl == 1 || nl == 3) g.createRowList(nl == 1 ? 4 : 2, w); if (nl > 1) g.createCliqueList(3, cs, cm); g.setMinimumViolation(mv); g.setMinimumViolationPer(mp); g.setMaximumEntries(me); g.setMinimumViolation(vs_real("badv", -1, 0, -2)); g.setMinimumViolationPer(vs_real("badp", -1, 0, -2)); g.setMaximumEntries(vs_int("bade", -2, 2)); }
static void expect(const G &g) { RETURNS(vAnd(g.getMinimumViolation() == mv, vAnd(g.getMinimumViolationPer() == mp, g.getMaximumEntries() == me))) }
static void other(G &g) { g.setMinimumViolation(0.4375); g.setMinimumViolationPer(0.2421875); g.setMaximumEntries(9); int w[] = {0}; g.createRowList(1, w); }
static void problem(Solver &si, Prob &p) { triangle(p); p.A(3, 3) = 1; p.A(3, 0) = 1; p.load(si); }
static const int N = 4, M = 4;
#elif GEN == 3
#undef ASSIGN
#define ASSIGN 0
#include "CglClique.hpp"
struct G : public CglClique { G() : CglClique(false, false) {} G(const G &g) : CglClique(g) {} G(const CglClique &g) : CglClique(g) {} G(bool a, bool b) : CglClique(a, b) {} CglCutGenerator *clone() const { CglCutGenerator *c = CglClique::clone(); CglClique *k = dynamic_cast<CglClique *>(c); G *g = new G(*k); delete c; return g; } };
typedef SymSolver Solver; static double mv;
static void defaults(const G &g) { vs_check(g.getMinViolation() == -1, "documented defaults"); }
static int k_, r_, t_, rep_, mx_;
static void set(G &g) { mv = vs_real("mv", 0.0625, 0.75, -4); g.setMinViolation(mv); int k = k_ = pickInt("do", 0, 3); g.setDoRowClique(k & 1); g.setDoStarClique(k & 2); g.setStarCliqueNextNodeMethod((CglClique::scl_next_node_method)(r_ = pickInt("rule", 0, 2))); int t = t_ = pickInt("thr", 0, 1); g.setStarCliqueCandidateLengthThreshold(12 * t); g.setRowCliqueCandidateLengthThreshold(12 - 12 * t); rep_ = SC == 3 ? pickInt("rep", 0, 1) : 0; g.setStarCliqueReport(rep_); g.setRowCliqueReport(SC == 3 ? !rep_ : 0); if ((mx_ = pickInt("max", 0, 1))) g.setMaxNumber(0); }
static void expect(const G &g) { RETURNS(g.getMinViolation() == mv) }
static void other(G &g) { g.setMinViolation(5); g.setDoRowClique(false); g.setDoStarClique(false); }
#define CLASS "CglClique"
static void lines(const G &g, const G &d) { line(".setMinViolation(", g.getMinViolation(), d.getMinViolation()); line(".setDoRowClique(", k_ & 1 ? 1 : 0, 1); line(".setDoStarClique(", k_ & 2 ? 1 : 0, 1); line(".setStarCliqueCandidateLengthThreshold(", 12 * t_, 12); line(".setRowCliqueCandidateLengthThreshold(", 12 - 12 * t_, 12); line(".setStarCliqueReport(", rep_, 1); line(".setRowCliqueReport(", !rep_, 1); line(".setMaxNumber(", mx_ ? 0 : 5000, 5000); static const char *R[] = {"SCL_MIN_DEGREE)", "SCL_MAX_DEGREE)", "SCL_MAX_XJ_MAX_DEG)"}; vs_check(vs_out_lines(R[r_]) == 1 && (vs_out_key(R[r_]) == '3' || r_ == 2), "generated code sets the current value"); (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { triangle(p); p.A(3, 3) = p.A(3, 0) = p.A(4, 3) = p.A(4, 1) = 1; p.x[3] = half("x3"); p.load(si); }
static const int N = 4, M = 5;
#elif GEN == 4
#include "CglAllDifferent.hpp"
typedef CglAllDifferent G; typedef SymSolver Solver; static int ml, ll; static int S0[] = {0, 3}, W0[] = {2, 0, 1}, S1[] = {0, 2, 4}, W1[] = {0, 1, 2, 1};
static void defaults(const G &g) { vs_check(vAnd(g.getMaxLook() == 2, g.getLogLevel() == 0), "documented defaults"); vs_check(!g.mayGenerateRowCutsInTree(), "this generator makes no row cuts in the tree"); }
static void set(G &g) { int k = pickInt("sets", 0, 2); if (k) { G h(k, k == 1 ? S0 : S1, k == 1 ? W0 : W1); g = h; } ml = vs_int("look", 0, 3); ll = SC == 3 ? vs_int("log", 0, 3) : 0; g.setMaxLook(ml); g.setLogLevel(ll); }
static void expect(const G &g) { RETURNS(vAnd(g.getMaxLook() == ml, g.getLogLevel() == ll)) }
static void other(G &g) { g.setMaxLook(7); g.setLogLevel(3); G h(1, S1, W1); g = h; }
#define CLASS "CglAllDifferent"
static void lines(const G &g, const G &d) { line(".setMaxLook(", g.getMaxLook(), d.getMaxLook()); line(".setLogLevel(", g.getLogLevel(), d.getLogLevel()); (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 3; j++) { bin(p, j, 0); p.lo[j] = pickInt("lo", 0, 1); p.up[j] = p.lo[j] + pickInt("w", 0, 2); p.x[j] = p.lo[j]; } p.ru[0] = 9; p.load(si); }
static const int N = 3, M = 1;
#elif GEN == 5
#include "CglStored.hpp"
typedef CglStored G; typedef SymSolver Solver; static double rv, lb, ub; static int nc;
static void defaults(const G &g) { vs_check(vAnd(g.getRequiredViolation() == 1e-5, g.sizeRowCuts() == 0), "documented defaults"); }
static void set(G &g) { rv = vs_real("rv", 0, 1, -3); g.setRequiredViolation(rv); nc = pickInt("n", 0, 2); int ix[] = {0, 1}; double e[] = {1, -1}; lb = vs_real("lb", -1, 1, -2); ub = vs_real("ub", -1, 1, -2); if (nc) g.addCut(-INF, ub, 2, ix, e); if (nc > 1) { e[1] = 2; g.addCut(lb, INF, 2, ix, e); } }
static void expect(const G &g) { RETURNS(vAnd(g.getRequiredViolation() == rv, g.sizeRowCuts() == nc)) if (nc) RETURNS(g.rowCutPointer(0)->ub() == ub) if (nc > 1) RETURNS(g.rowCutPointer(1)->lb() == lb) }
static void other(G &g) { g.setRequiredViolation(9); int ix[] = {1}; double e[] = {1}; for (int i = 0; i < 3; i++) g.addCut(3, 3, 1, ix, e); }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 2; j++) bin(p, j, half("x")); p.A(0, 0) = 1; p.load(si); }
static const int N = 2, M = 1;
#elif GEN == 6 || GEN == 13
#if GEN == 13
#include "CglMixedIntegerRounding2.hpp"
#define CglMixedIntegerRounding CglMixedIntegerRounding2
#else
#include "CglMixedIntegerRounding.hpp"
#endif
typedef CglMixedIntegerRounding G; typedef SymSolver Solver; static int ag, cr, pp; static bool mu;
static void defaults(const G &g) { vs_check(vAnd(g.getMAXAGGR_() == 1, vAnd(g.getMULTIPLY_(), g.getCRITERION_() == 1)), "documented defaults"); }
static void set(G &g) { ag = pickInt("agg", 1, 2); cr = SC == 4 ? 2 : pickInt("crit", 1, 3); mu = SC == 4 ? 1 : pickInt("mult", 0, 1); pp = pickInt("pre", -1, 1); if (SC != 4 && pickInt("ctor", 0, 1)) { G h(ag, mu, cr, pp); vs_check(vAnd(vAnd(h.getMAXAGGR_() == ag, h.getMULTIPLY_() == mu), h.getCRITERION_() == cr), "constructor arguments are stored"); h.setAggressiveness(g.getAggressiveness()); h.setGlobalCuts(g.canDoGlobalCuts()); h.setMaxSeconds(g.getMaxSeconds()); g = h; } else { g.setMAXAGGR_(ag); g.setCRITERION_(cr); g.setMULTIPLY_(mu); g.setDoPreproc(pp); } }
static void refuse() { G g; int bad = 0; try { g.setMAXAGGR_(GEN == 13 ? -3 * vs_pick(vs_int("bad", 0, 1)) : vs_int("bad", -2, 0)); } catch (CoinError &) { bad++; } try { g.setCRITERION_(vs_pick(vs_int("badc", 0, 1)) * 4); } catch (CoinError &) { bad++; } vs_check(bad == 2, "values outside the documented range are refused"); vs_check(g.getMAXAGGR_() == 1 && g.getCRITERION_() == 1, "a refused value changes nothing"); }
#define REFUSE refuse();
static void expect(const G &g) { RETURNS(vAnd(vAnd(g.getMAXAGGR_() == ag, g.getMULTIPLY_() == mu), vAnd(g.getCRITERION_() == cr, g.getDoPreproc() == (pp != 0)))) }
static void other(G &g) { g.setMAXAGGR_(ag + 4); g.setCRITERION_(cr == 1 ? 2 : 1); g.setMULTIPLY_(!mu); g.setDoPreproc(pp ? 0 : 1); }
#if GEN == 13
#define CLASS "CglMixedIntegerRounding2"
#else
#define CLASS "CglMixedIntegerRounding"
#endif
static void lines(const G &g, const G &d) { line(".setMAXAGGR_(", ag, 1); line(".setMULTIPLY_(", mu, 1); line(".setCRITERION_(", cr, 1); line(".setDoPreproc(", pp, -1); (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 3; j++) { bin(p, j, j == 2 ? 0 : SC == 1 && j ? 0.5 : half("x")); p.up[j] = j == 2 ? 9 : 3; p.isint[j] = j < 2; } for (int i = 0; i < 2; i++) { p.A(i, 0) = 2; p.A(i, 1) = i ? 3 : 1; p.A(i, 2) = i ? 1 : -1; p.ru[i] = 2.5; }
#if GEN == 13
  static const double A[] = {3, -2, 0, -1, 3, 3}; for (int k = 0; k < 6; k++) p.A(k / 3, k % 3) = A[k]; p.ru[0] = 1; p.ru[1] = 0.5;
#endif
  p.x[2] = 0; p.rl[1] = -3; p.load(si); }
static const int N = 3, M = 2;
#elif GEN == 7
#include "CglZeroHalf.hpp"
typedef CglZeroHalf G; typedef SymSolver Solver; static int fl, st, pc, fc; static Solver *cur;
static void defaults(const G &g) { vs_check(g.getFlags() == 0, "documented defaults"); }
static void set(G &g) { fl = vs_int("flags", 0, 1); st = vs_int("thr", 0, 5); pc = vs_int("pairs", 1, 9); fc = vs_int("frac", 1, 9); g.setFlags(fl); g.setSepGraphSparseThreshold(st); g.setRowMaxPairCount(pc); g.setRowMaxFractionalCount(fc); g.refreshSolver(cur); }
static void expect(const G &g) { RETURNS(vAnd(vAnd(g.getFlags() == fl, g.getSepGraphSparseThreshold() == st), vAnd(g.getRowMaxPairCount() == pc, g.getRowMaxFractionalCount() == fc))) }
static void other(G &g) { g.setFlags(7); g.setSepGraphSparseThreshold(77); g.setRowMaxPairCount(78); g.setRowMaxFractionalCount(79); }
#define CLASS "CglZeroHalf"
static void lines(const G &g, const G &d) { line(".setFlags(", fl, d.getFlags()); line(".setSepGraphSparseThreshold(", st, d.getSepGraphSparseThreshold()); line(".setRowMaxPairCount(", pc, d.getRowMaxPairCount()); line(".setRowMaxFractionalCount(", fc, d.getRowMaxFractionalCount()); (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { triangle(p); p.load(si); cur = &si; }
static const int N = 3, M = 3;
#elif GEN == 8
#include "CglRedSplit.hpp"
typedef CglRedSplit G; typedef SymSolver Solver; static int li; static double aw, lu, ep, ec, el, er, nz, mr, mt;
static void defaults(const G &g) { vs_check(vAnd(g.getAway() == 0.05, vAnd(g.getLUB() == 1000, vAnd(g.getMinReduc() == 0.05, g.getMaxTab() == 1e7))), "documented defaults"); vs_check(g.needsOptimalBasis(), "this generator needs an optimal basis"); }
static void set(G &g) { li = vs_int("lim", 1, 9); aw = vs_real("away", 0.0625, 0.25, -5); lu = vs_real("lub", 100, 5000, -1); mr = vs_real("mr", 0.0625, 0.5, -5); ep = 0.000001; ec = 0.00000002; el = 1e-12; er = 0.0000004; nz = 0.00002; mt = 1000 * (1 + pickInt("mt", 0, 1)); bool viaParam = pickInt("param", 0, 1);
  if (viaParam) { CglRedSplitParam q = g.getParam(); q.setMAX_SUPPORT(li); q.setAway(aw); q.setLUB(lu); q.setEPS(ep); q.setEPS_COEFF(ec); q.setEPS_COEFF_LUB(el); q.setNormIsZero(nz); q.setMinReduc(mr); q.setMaxTab(mt); q.setUSE_CG2(1); g.setParam(q); g.setLimit(li); g.setEPS_RELAX(er); } else { g.setLimit(li); g.setAway(aw); g.setLUB(lu); g.setEPS(ep); g.setEPS_COEFF(ec); g.setEPS_COEFF_LUB(el); g.setEPS_RELAX(er); g.setNormIsZero(nz); g.setMinReduc(mr); g.setMaxTab(mt); } }
static void expect(const G &g) { RETURNS(vAnd(vAnd(g.getLimit() == li, g.getAway() == aw), vAnd(g.getLUB() == lu, vAnd(g.getMinReduc() == mr, vAnd(g.getMaxTab() == mt, g.getNormIsZero() == nz))))) RETURNS(vAnd(vAnd(g.getEPS() == ep, g.getEPS_COEFF() == ec), vAnd(g.getEPS_COEFF_LUB() == el, g.getEPS_RELAX() == er))) }
static void other(G &g) { g.setLimit(11); g.setAway(0.3); g.setLUB(9000); g.setEPS(1e-3); g.setEPS_COEFF(1e-3); g.setEPS_COEFF_LUB(1e-3); g.setEPS_RELAX(1e-3); g.setNormIsZero(1e-3); g.setMinReduc(0.9); g.setMaxTab(5); }
#define CLASS "CglRedSplit"
static void lines(const G &g, const G &d) { line(".setLimit(", li, d.getLimit()); line(".setAway(", aw, d.getAway()); line(".setLUB(", lu, d.getLUB()); line(".setEPS(", ep, d.getEPS()); line(".setEPS_COEFF(", ec, d.getEPS_COEFF()); line(".setEPS_COEFF_LUB(", el, d.getEPS_COEFF_LUB()); line(".setEPS_RELAX(", er, d.getEPS_RELAX()); line(".setNormIsZero(", nz, d.getNormIsZero()); line(".setMinReduc(", mr, d.getMinReduc()); line(".setMaxTab(", mt, d.getMaxTab()); (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 2; j++) { bin(p, j, 0); p.up[j] = 4; } p.isint[1] = pickInt("int", 0, 1); p.A(0, 0) = 1; p.A(0, 1) = 0.75; p.ru[0] = 1.25 + 0.25 * pickInt("b", 0, 2); p.x[0] = p.ru[0]; p.load(si); si.haveBasis = true; si.cstat = new int[3]; si.rstat = new int[2]; si.basics = new int[2]; si.binv = new double[2]; si.binvA = new double[3]; si.cstat[0] = 1; si.cstat[1] = 3; si.rstat[0] = 3; si.basics[0] = 0; si.binv[0] = 1; si.binvA[0] = 1; si.binvA[1] = 0.75; }
static const int N = 2, M = 1;
#elif GEN == 9
#include "CglKnapsackCover.hpp"
typedef CglKnapsackCover G; typedef SymSolver Solver; static int mx;
static void defaults(const G &g) { vs_check(g.getMaxInKnapsack() == 50, "documented defaults"); }
static int ex_;
static void set(G &g) { mx = vs_int("max", 2, 9); g.setMaxInKnapsack(mx); g.setMaxInKnapsack(vs_int("bad", -3, 0)); if ((ex_ = pickInt("exp", 0, 1))) g.switchOnExpensive(); else g.switchOffExpensive(); int w[] = {1, 0}; int k = pickInt("rows", 0, 2); if (k) g.setTestedRowIndices(k, w); }
static void expect(const G &g) { RETURNS(g.getMaxInKnapsack() == mx) }
static void other(G &g) { g.setMaxInKnapsack(1); g.switchOffExpensive(); int w[] = {0}; g.setTestedRowIndices(1, w); }
#define CLASS "CglKnapsackCover"
static void lines(const G &g, const G &d) { line(".setMaxInKnapsack(", mx, d.getMaxInKnapsack()); int on = vs_out_key(".switchOnExpensive()"), off = vs_out_key(".switchOffExpensive()"); vs_check(ex_ ? on == '3' && !off : off != 0 && !on, "generated code sets the current value"); (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 4; j++) bin(p, j, j == 3 ? 1 : half("x")); for (int i = 0; i < 2; i++) { for (int j = 0; j < 4; j++) p.A(i, j) = 1 + (i + j) % 4; p.ru[i] = pickInt("b", 4, 5); } p.load(si); }
static const int N = 4, M = 2;
#elif GEN == 10
#include "CglDuplicateRow.hpp"
typedef CglDuplicateRow G; typedef SymSolver Solver; static int rh, dm, mo, lg, nr; static Solver *cur;
static void defaults(const G &g) { vs_check(vAnd(vAnd(g.maximumRhs() == 1, g.maximumDominated() == 1000), vAnd(g.mode() == 3, g.logLevel() == 0)), "documented defaults"); vs_check(g.numberOriginalRows() == 0 && g.duplicate() == NULL, "no problem yet"); }
static void set(G &g) { rh = vs_int("rhs", 1, 9); dm = vs_int("dom", 0, 2000); mo = SC == 3 ? vs_int("mode", 1, 12) : pickInt("mode", 1, 3); lg = SC == 3 ? vs_int("log", 0, 3) : 0; g.setMaximumRhs(rh); g.setMaximumDominated(dm); g.setMode(mo); g.setLogLevel(lg); nr = 0; if (pickInt("refresh", 0, 1)) { g.refreshSolver(cur); nr = cur->m; } }
static void expect(const G &g) { RETURNS(vAnd(vAnd(g.maximumRhs() == rh, g.maximumDominated() == dm), vAnd(g.mode() == mo, g.logLevel() == lg))) vs_check(g.numberOriginalRows() == nr, "the problem is kept"); for (int i = 0; i < nr; i++) vs_check(g.duplicate()[i] == -1, "no row is marked yet"); }
static void other(G &g) { g.setMaximumRhs(55); g.setMaximumDominated(56); g.setMode(1); g.setLogLevel(2); Prob p(2, 1); none(p); for (int j = 0; j < 2; j++) bin(p, j, 0); p.A(0, 1) = 1; Solver s; p.load(s); g.refreshSolver(&s); }
#define CLASS "CglDuplicateRow"
static void lines(const G &g, const G &d) { line(".setLogLevel(", lg, d.logLevel()); line(".setMaximumRhs(", rh, d.maximumRhs()); line(".setMaximumDominated(", dm, d.maximumDominated()); line(".setMode(", mo, d.mode()); (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { triangle(p); p.A(2, 2) = p.A(2, 0) = 0; p.A(2, 0) = p.A(2, 1) = 1; p.load(si); cur = &si; }
static const int N = 3, M = 3;
#define SC4SAME for (int i = 0; i < M; i++) vs_check(h.duplicate()[i] == fresh.duplicate()[i], "a problem seen before does not change which rows are marked");
#define SC4SET mo = 8; g.setMode(8); nr = M;
#elif GEN == 12
#include "CglResidualCapacity.hpp"
typedef CglResidualCapacity G; typedef SymSolver Solver; static double ep, to; static int pp;
static void defaults(const G &g) { vs_check(vAnd(g.getEpsilon() == 1e-6, vAnd(g.getTolerance() == 1e-4, g.getDoPreproc())), "documented defaults"); }
static void set(G &g) { ep = 1e-6 * (1 + pickInt("ep", 0, 1)); to = vs_real("to", 0.03125, 0.25, -5); pp = SC == 4 ? 1 : pickInt("pre", -1, 1); g.setEpsilon(ep); g.setTolerance(to); g.setDoPreproc(pp); }
static void refuse() { G g; int bad = 0; try { g.setDoPreproc(vs_pick(vs_int("bad", 0, 1)) * 4 - 2); } catch (CoinError &) { bad++; } vs_check(bad == 1 && g.getDoPreproc(), "values outside the documented range are refused"); }
#define REFUSE refuse();
static void expect(const G &g) { RETURNS(vAnd(vAnd(g.getEpsilon() == ep, g.getTolerance() == to), g.getDoPreproc() == (pp != 0))) }
static void other(G &g) { g.setEpsilon(0.5); g.setTolerance(7); g.setDoPreproc(pp ? 0 : 1); }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 3; j++) { p.lo[j] = 0; p.up[j] = 2; p.isint[j] = j == 2; p.x[j] = 0.25 + 0.5 * pickInt("x", 0, 2); } for (int i = 0; i < 2; i++) { p.A(i, 0) = 1; p.A(i, 1) = i ? -1 : 1; p.A(i, 2) = -2; p.ru[i] = 0.5 + 0.75 * pickInt("b", 0, 1); } p.load(si); }
static const int N = 3, M = 2;
#elif GEN == 14
#include "CglFlowCover.hpp"
typedef CglFlowCover G; typedef SymSolver Solver; static int mx;
static void defaults(const G &g) { vs_check(g.getMaxNumCuts() == 2000000, "documented defaults"); }
static void set(G &g) { mx = vs_int("max", 30, 99); g.setMaxNumCuts(mx); }
static void expect(const G &g) { RETURNS(g.getMaxNumCuts() == mx) }
static void other(G &g) { g.setMaxNumCuts(1); }
#define CLASS "CglFlowCover"
static void lines(const G &g, const G &d) { line(".setMaxNumCuts(", mx, d.getMaxNumCuts()); (void)g; }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 2; j++) { p.lo[j] = 0; p.up[j] = 8; p.isint[j] = 0; bin(p, 2 + j, 0.5 + 0.25 * pickInt("v", 0, 2)); p.x[j] = (j ? 4 : 6) * p.x[2 + j]; p.A(j, j) = 1; p.A(j, 2 + j) = j ? -4 : -6; p.ru[j] = 0; p.A(2, j) = 1; } p.ru[2] = 3 + 2 * pickInt("b", 0, 1); p.load(si); }
static const int N = 4, M = 3;
#elif GEN == 11
#include "CglLiftAndProject.hpp"
typedef CglLiftAndProject G; typedef SymSolver Solver; static int be;
#define NOGEN 1
static void defaults(const G &g) { vs_check(g.getBeta() == 1, "documented defaults"); }
static void set(G &g) { be = 2 * pickInt("beta", 0, 1) - 1; g.setBeta(be); }
static void expect(const G &g) { RETURNS(g.getBeta() == be) }
static void refuse() { G g; int bad = 0; try { g.setBeta(vs_pick(vs_int("bad", 0, 1)) * 2); } catch (CoinError &) { bad++; } vs_check(bad == 1 && g.getBeta() == 1, "values outside the documented range are refused"); }
#define REFUSE refuse();
static void other(G &g) { g.setBeta(-be); }
#define CLASS "CglLiftAndProject"
static void lines(const G &g, const G &d) { line(".setBeta(", g.getBeta(), 1); (void)g; (void)d; }
static void problem(Solver &si, Prob &p) { none(p); for (int j = 0; j < 2; j++) bin(p, j, 0.5); p.A(0, 0) = 1; p.load(si); }
static const int N = 2, M = 1;
#endif
#ifndef NOGEN
#define NOGEN 0
#endif
#ifndef SC4SET
#define SC4SET
#define SC4SAME expect(h);
#endif
#ifndef REFUSE
#define REFUSE
#endif
static void build(Solver &si, Prob &p) { problem(si, p); }
static CglTreeInfo anyInfo() { CglTreeInfo info; int k = pickInt("info", 0, 2); info.inTree = k == 1; info.level = k == 1 ? 3 : 0; info.pass = k == 2 ? 1 : 0; info.formulation_rows = M; if (k == 2) info.options = 4; return info; }
extern "C" void vs_main() {
#if SC == 1 // settings, copies, clones, assignment
  Prob p(N, M); Solver si; build(si, p); REFUSE long b0 = vs_live_bytes(); {
    G g0; defaults(g0); vs_check(vAnd(g0.getAggressiveness() == 0, vAnd(g0.canDoGlobalCuts() == (GEN == 9), g0.getMaxSeconds() == 0.0)), "documented defaults of every generator"); vs_check(g0.originalSolver() == NULL && !g0.needsOriginalModel() && g0.maximumLengthOfCutInTree() > 1000000, "documented defaults of every generator");
    int ag = vs_int("aggr", -5, 200); bool gl = vs_int("glob", 0, 1); double ms = vs_real("sec", 0, 99, -2); set(g0); g0.setAggressiveness(ag); g0.setGlobalCuts(gl); g0.setMaxSeconds(ms); expect(g0);
    SymSolver *os = NULL; if (pickInt("orig", 0, 1)) { os = new SymSolver(si); vs_check(g0.swapOriginalSolver(os) == NULL && g0.originalSolver() == os, "the original model is kept"); }
    vs_check(vAnd(g0.getAggressiveness() == ag, vAnd(g0.canDoGlobalCuts() == gl, g0.getMaxSeconds() == ms)), "a setting is what was set last");
    int how = pickInt("how", 0, ASSIGN ? 4 : 1); G *g = NULL; if (how == 0) g = new G(g0); else if (how == 1) { CglCutGenerator *c = g0.clone(); g = dynamic_cast<G *>(c); vs_check(g != NULL, "a clone is of the same class"); }
#if ASSIGN
    else { g = new G(); if (how == 3) { other(*g); g->setAggressiveness(3); g->setGlobalCuts(true); g->setMaxSeconds(7); g->swapOriginalSolver(new SymSolver(si)); } G &r = (*g = g0); vs_check(&r == g, "assignment returns the object"); if (how == 4) { G *self = g; *g = *self; } }
#endif
    expect(*g); vs_check(vAnd(g->getAggressiveness() == ag, vAnd(g->canDoGlobalCuts() == gl, g->getMaxSeconds() == ms)), "a copy has the settings of the original"); vs_check((g->originalSolver() != NULL) == (os != NULL) && (!os || g->originalSolver() != os), "a copy has its own copy of the original model"); if (os) vs_check(g->originalSolver()->getNumCols() == N, "a copy has its own copy of the original model");
    CglTreeInfo info = anyInfo(); OsiCuts a, b; if (!NOGEN) g0.generateCuts(si, a, info); if (a.sizeCuts()) vs_reach("cuts"); expect(g0); { G t(*g); other(t); t.setAggressiveness(ag + 1); t.setGlobalCuts(!gl); t.setMaxSeconds(ms + 1); expect(*g); other(g0); g0.setAggressiveness(ag + 1); }
    expect(*g); vs_check(vAnd(g->getAggressiveness() == ag, vAnd(g->canDoGlobalCuts() == gl, g->getMaxSeconds() == ms)), "a copy is independent of the original"); if (!NOGEN) g->generateCuts(si, b, info); expect(*g); vs_check(vAnd(g->getAggressiveness() == ag, vAnd(g->canDoGlobalCuts() == gl, g->getMaxSeconds() == ms)), "generating changes no setting"); checkSameCuts(a, b, "a copy generates what the original would"); delete g;
  } vs_reach("released"); vs_check(vs_live_bytes() == b0, "all memory is released");
#elif SC == 3 // C++ code written by the generator: an object made by it has the settings of this one
  Prob p(N, M); Solver si; build(si, p); G g; set(g); int ag = vs_int("aggr", -5, 200); g.setAggressiveness(ag); FILE *fp = (FILE *)vs_out_open(); G d; std::string nm = g.generateCpp(fp); vs_check(vs_out_lines("#include \"" CLASS ".hpp\"") == 1 && vs_out_key("#include \"" CLASS ".hpp\"") == '0', "generated code includes the header"); std::string decl = std::string(CLASS " ") + nm + ";"; vs_check(vs_out_lines(decl.c_str()) == 1 && vs_out_key(decl.c_str()) == '3', "generated code declares the object it names"); line(".setAggressiveness(", ag, 0); lines(g, d); expect(g); std::string use = nm + "."; vs_check(vs_out_lines(".s") == vs_out_lines(use.c_str()), "generated code sets the object it declares"); vs_reach("written");
#elif SC == 4 // another problem first: after the refresh call the generator gives what one that never saw it gives
  Prob p(N, M); Solver si; build(si, p); G g; set(g); SC4SET
  int how = pickInt("before", 0, GEN == 8 ? 1 : 3); SymSolver *sa; if (how < 2) { sa = new SymSolver(si); if (how == 0) { sa->cu[0] = sa->x[0] = sa->cl[0]; } else for (int i = 0; i < M; i++) { sa->rl[i] = -INF; sa->ru[i] = INF; sa->setSense(i); } }
  else if (how == 2) { Prob q(N + 1, M + 1); none(q); for (int j = 0; j < N; j++) { int k = N - 1 - j; q.lo[j] = p.lo[k]; q.up[j] = p.up[k]; q.isint[j] = p.isint[k]; q.x[j] = p.x[k]; for (int i = 0; i < M; i++) q.A(i, j) = p.A(M - 1 - i, k); } for (int i = 0; i < M; i++) { q.rl[i] = p.rl[M - 1 - i]; q.ru[i] = p.ru[M - 1 - i]; } bin(q, N, 0.5); q.A(M, N) = q.A(M, 0) = 1; sa = new SymSolver(); q.load(*sa); }
  else { Prob q(N, M + 2); none(q); for (int j = 0; j < N; j++) { q.lo[j] = p.lo[j]; q.up[j] = p.up[j]; q.isint[j] = p.isint[j]; q.x[j] = p.x[j]; for (int i = 0; i < M; i++) q.A(i + 2, j) = p.A(i, j); q.A(0, j) = 1; q.A(1, j) = j + 1; } for (int i = 0; i < M; i++) { q.rl[i + 2] = p.rl[i]; q.ru[i + 2] = p.ru[i]; } q.ru[0] = q.ru[1] = N; sa = new SymSolver(); q.load(*sa); }
  long b0 = vs_live_bytes(); { G fresh(g), h(g); CglTreeInfo i1 = anyInfo(), i2; i2.inTree = pickInt("tree", 0, 1); i2.formulation_rows = M; OsiCuts t, a, b; h.refreshSolver(sa); h.generateCuts(*sa, t, i1); if (t.sizeCuts()) vs_reach("cuts before"); if (pickInt("twice", 0, 1)) h.generateCuts(*sa, t, i2); h.refreshSolver(&si); fresh.refreshSolver(&si); h.generateCuts(si, a, i2); fresh.generateCuts(si, b, i2); obsCuts(b); if (b.sizeCuts()) vs_reach("cuts"); SC4SAME checkSameCuts(b, a, "a problem seen before does not change the cuts"); }
  vs_check(vs_live_bytes() == b0, "all memory is released"); delete sa;
#else // generating: nothing but the cut collection changes, cuts are appended, the same call gives the same cuts
  Prob p(N, M); Solver si; build(si, p); SymSolver keep(si); G g; set(g); CglTreeInfo info = anyInfo(); OsiCuts cs, c2; OsiRowCut old; int ix[] = {0, 1}; double e[] = {3, -2}; old.setRow(2, ix, e); old.setLb(-5); old.setUb(vs_real("old", -1, 1, -2)); old.setEffectiveness(0.5); OsiColCut oc; oc.setUbs(2, ix, e); oc.setLbs(1, ix, e); if (pickInt("had", 0, 1)) { cs.insert(old); cs.insert(oc); cs.insert(old); } OsiCuts before; for (int i = 0; i < cs.sizeRowCuts(); i++) { OsiRowCut r = cs.rowCut(i); before.insert(r); } for (int i = 0; i < cs.sizeColCuts(); i++) { OsiColCut r = cs.colCut(i); before.insert(r); }
  g.generateCuts(si, cs, info); expect(g); obsCuts(cs); int fr = before.sizeRowCuts(), fc = before.sizeColCuts(), nr = cs.sizeRowCuts(), nc = cs.sizeColCuts(); if (nr > fr || nc > fc) vs_reach("cuts"); vs_check(nr >= fr && nc >= fc, "cuts are only added");
  OsiCuts pre; for (int i = 0; i < fr && i < nr; i++) { OsiRowCut r = cs.rowCut(i); pre.insert(r); } for (int i = 0; i < fc && i < nc; i++) { OsiColCut r = cs.colCut(i); pre.insert(r); } checkSameCuts(before, pre, "cuts already in the collection stay as they are"); if (GEN != 4) checkWellFormed(cs, N);
  g.generateCuts(si, c2, info); expect(g); checkSameCuts(c2, cs, "the same call gives the same cuts", fr, fc); long b1 = vs_live_bytes(); { OsiCuts c3; g.generateCuts(si, c3, info); checkSameCuts(c2, c3, "the same call gives the same cuts"); } vs_check(vs_live_bytes() == b1, "generating releases all its memory");
  vs_check(si.writes == 0 && si.n == keep.n && si.m == keep.m, "the solver is unchanged"); bool ok = true; for (int j = 0; j < N; j++) ok = vAnd(ok, vAnd(vAnd(si.cl[j] == keep.cl[j], si.cu[j] == keep.cu[j]), vAnd(si.x[j] == keep.x[j], si.isInt[j] == keep.isInt[j]))); for (int i = 0; i < M; i++) ok = vAnd(ok, vAnd(vAnd(si.rl[i] == keep.rl[i], si.ru[i] == keep.ru[i]), vAnd(si.rhs[i] == keep.rhs[i], vAnd(si.sense[i] == keep.sense[i], si.act[i] == keep.act[i])))); vs_check(ok, "the problem in the solver is unchanged");
  ok = true; for (int w = 0; w < 2; w++) { const CoinPackedMatrix *a = w ? si.byCol : si.byRow, *b = w ? keep.byCol : keep.byRow; vs_check(a->getNumElements() == b->getNumElements() && a->getMajorDim() == b->getMajorDim(), "the matrix in the solver is unchanged"); for (int i = 0; i < a->getMajorDim(); i++) { int s = a->getVectorStarts()[i], t = b->getVectorStarts()[i], k = a->getVectorLengths()[i]; vs_check(k == b->getVectorLengths()[i], "the matrix in the solver is unchanged"); for (int q = 0; q < k; q++) ok = vAnd(ok, vAnd(a->getElements()[s + q] == b->getElements()[t + q], a->getIndices()[s + q] == b->getIndices()[t + q])); } } vs_check(ok, "the matrix in the solver is unchanged");
#endif
}
