#include "vs.h"
#include <cstring>
#include <vector>
#include <string>
#include "CglParam.hpp"
#include "CglRedSplitParam.hpp"
#include "CglGMIParam.hpp"
#include "CglRedSplit2Param.hpp"
// X(setter, getter, accepted range, 1 if the value is an int, 2 if bool, 3 if it is an enumeration of 6, 4 of 7)
#define BASE X(setINFINIT, getINFINIT, v > 0, 0) X(setEPS, getEPS, v >= 0, 0) X(setEPS_COEFF, getEPS_COEFF, v >= 0, 0) X(setMAX_SUPPORT, getMAX_SUPPORT, v > 0, 1)
#define RELAX X(setEPS_ELIM, getEPS_ELIM, v >= 0, 0) X(setEPS_RELAX_ABS, getEPS_RELAX_ABS, v >= 0, 0) X(setEPS_RELAX_REL, getEPS_RELAX_REL, v >= 0, 0) X(setAway, getAway, vAnd(v > 0, v <= 0.5), 0)
#if SC == 1
typedef CglParam P;
#define LIST BASE
#elif SC == 2
typedef CglRedSplitParam P;
#define LIST BASE RELAX X(setLUB, getLUB, v > 0, 0) X(setMAXDYN, getMAXDYN, v > 1, 0) X(setMAXDYN_LUB, getMAXDYN_LUB, v > 1, 0) X(setEPS_COEFF_LUB, getEPS_COEFF_LUB, vAnd(v > 0, v <= 0.1), 0) X(setMINVIOL, getMINVIOL, vAnd(v > 0, v <= 0.1), 0) X(setUSE_INTSLACKS, getUSE_INTSLACKS, true, 1) X(setUSE_CG2, getUSE_CG2, true, 1) X(setNormIsZero, getNormIsZero, vAnd(v > 0, v <= 1), 0) X(setMinReduc, getMinReduc, vAnd(v > 0, v <= 1), 0) X(setMaxTab, getMaxTab, v > 10, 0)
#elif SC == 3
typedef CglGMIParam P;
#define LIST BASE RELAX X(setMAXDYN, getMAXDYN, v >= 1, 0) X(setMINVIOL, getMINVIOL, v >= 0, 0) X(setMAX_SUPPORT_REL, getMAX_SUPPORT_REL, vAnd(v >= 0, v <= 1), 0) X(setUSE_INTSLACKS, getUSE_INTSLACKS, true, 2) X(setCHECK_DUPLICATES, getCHECK_DUPLICATES, true, 2) X(setINTEGRAL_SCALE_CONT, getINTEGRAL_SCALE_CONT, true, 2) X(setENFORCE_SCALING, getENFORCE_SCALING, true, 2) X(setCLEAN_PROC, getCLEAN_PROC, true, 4)
#elif SC == 4
typedef CglRedSplit2Param P;
#define LIST BASE RELAX X(setMAXDYN, getMAXDYN, v > 1, 0) X(setMINVIOL, getMINVIOL, vAnd(v > 0, v <= 0.1), 0) X(setMAX_SUPP_REL, getMAX_SUPP_REL, vAnd(v >= 0, v <= 1), 0) X(setUSE_INTSLACKS, getUSE_INTSLACKS, true, 1) X(setNormIsZero, getNormIsZero, vAnd(v > 0, v <= 1), 0) X(setMinNormReduction, getMinNormReduction, vAnd(v > 0, v <= 1), 0) X(setMaxSumMultipliers, getMaxSumMultipliers, v > 1, 1) X(setNormalization, getNormalization, v >= 0, 0) X(setColumnScalingStrategyLAP, getColumnScalingStrategyLAP, true, 3) X(setColumnScalingBoundLAP, getColumnScalingBoundLAP, v >= 0, 0) X(setTimeLimit, getTimeLimit, v >= 0, 0) X(setMaxNumCuts, getMaxNumCuts, v >= 0, 1) X(setMaxNumComputedCuts, getMaxNumComputedCuts, v >= 0, 1) X(setMaxNonzeroesTab, getMaxNonzeroesTab, v >= 0, 1) X(setSkipGomory, getSkipGomory, vAnd(v >= 0, v <= 1), 1)
#endif
#define X(s, g, r, i) +1
enum { N = 0 LIST };
#undef X
template <class T> static void call(P &p, void (P::*f)(T), double v) { (p.*f)((T)v); }
template <class T> static void callInt(P &p, void (P::*f)(T), int v) { (p.*f)((T)v); }
#if SC != 1
template <class T> static void call(P &p, void (CglParam::*f)(T), double v) { (p.*f)((T)v); }
template <class T> static void callInt(P &p, void (CglParam::*f)(T), int v) { (p.*f)((T)v); }
#endif
static void snap(const P &p, double *o) { int k = 0;
#define X(s, g, r, i) o[k++] = (double)p.g();
  LIST
#undef X
}
#if SC == 4
static void lists(const P &p, std::vector<int> &o) { o.clear(); std::vector<int> a = p.getNumRowsReduction(), b = p.getNumRowsReductionLAP(); o.insert(o.end(), a.begin(), a.end()); o.push_back(-1); o.insert(o.end(), b.begin(), b.end()); o.push_back(-1);
  std::vector<P::ColumnSelectionStrategy> c = p.getColumnSelectionStrategy(), d = p.getColumnSelectionStrategyLAP(); for (size_t i = 0; i < c.size(); i++) o.push_back(c[i]); o.push_back(-1); for (size_t i = 0; i < d.size(); i++) o.push_back(d[i]); o.push_back(-1);
  std::vector<P::RowSelectionStrategy> e = p.getRowSelectionStrategy(), f = p.getRowSelectionStrategyLAP(); for (size_t i = 0; i < e.size(); i++) o.push_back(e[i]); o.push_back(-1); for (size_t i = 0; i < f.size(); i++) o.push_back(f[i]); }
#else
static void lists(const P &, std::vector<int> &o) { o.clear(); }
#endif
static void same(const P &a, const P &b, const char *msg) { double x[N], y[N]; snap(a, x); snap(b, y); bool ok = true; for (int i = 0; i < N; i++) ok = vAnd(ok, x[i] == y[i]); std::vector<int> u, v; lists(a, u); lists(b, v); ok = vAnd(ok, u.size() == v.size()); for (size_t i = 0; i < u.size() && i < v.size(); i++) ok = vAnd(ok, u[i] == v[i]); vs_check(ok, msg); }
// one setter with any value: the parameter becomes the value if it is in its range and stays otherwise, no other parameter changes
static void step(P &p) {
  double o[N], n[N]; snap(p, o); std::vector<int> l0, l1; lists(p, l0); int k = vs_pick(vs_int("which", 0, N - 1)), c = 0; double val = 0; bool ok = true;
#define X(s, g, r, i) if (k == c++) { if (i) { int v = vs_int("v", i == 2 ? 0 : i >= 3 ? 0 : -5, i == 2 ? 1 : i >= 3 ? i + 2 : 2000); val = (double)v; ok = (r); callInt(p, &P::s, v); } else { double v = vs_real("v", -32, 1024, -20); val = v; ok = (r); call(p, &P::s, v); } }
  LIST
#undef X
  snap(p, n); lists(p, l1); vs_obs("old", o[k]); vs_obs("new", n[k]);
#if SC == 4
  if (k == 18) { vs_check(n[k] == vs_ite(val >= 0, val, 0.0), "the time limit is the value set or none"); ok = true; val = n[k]; }
#endif
  vs_check(n[k] == vs_ite(ok, val, o[k]), "a parameter takes every value of its range and ignores others");
  bool rest = true; for (int i = 0; i < N; i++) if (i != k) rest = vAnd(rest, n[i] == o[i]); rest = vAnd(rest, l0 == l1); vs_check(rest, "setting a parameter changes no other parameter");
  if (vs_pick(ok)) vs_reach("accepted"); else vs_reach("ignored");
}
static void fill(P &p) { // every parameter away from its default
#define X(s, g, r, i) if (i) { callInt(p, &P::s, 0); callInt(p, &P::s, i == 1 ? 7 : 1); } else { call(p, &P::s, 0.0625); call(p, &P::s, 12); }
  LIST
#undef X
#if SC == 3
  p.setENFORCE_SCALING(false);
#elif SC == 4
  p.addNumRowsReduction(2); p.addNumRowsReductionLAP(4); p.addColumnSelectionStrategy(P::CS2); p.addColumnSelectionStrategyLAP(P::CS3); p.addRowSelectionStrategy(P::RS4); p.addRowSelectionStrategyLAP(P::RS5);
#endif
}
static void copies(P &p) { // copies are equal, independent, and assignment replaces everything
  P q(p); same(p, q, "a copy has the same parameters"); P *r = p.clone(); same(p, *r, "a clone has the same parameters"); P t; fill(t); t = p; same(p, t, "an assigned object has the same parameters"); P keep(p); fill(q); fill(*r); same(p, keep, "changing a copy leaves the original alone"); delete r; P &self = t; t = self; same(p, t, "self assignment changes nothing"); vs_reach("copied");
}
extern "C" void vs_main() {
  P p; int how = vs_pick(vs_int("how", 0, 2));
  if (how == 0) { step(p); step(p); }
  else if (how == 1) { if (vs_pick(vs_int("fill", 0, 1))) fill(p); step(p); copies(p); }
  else { // constructors put every argument where it belongs
    double a[24]; for (int i = 0; i < 24; i++) a[i] = vs_real("arg", 0, 64, -4); int n[8]; for (int i = 0; i < 8; i++) n[i] = vs_int("n", 1, 99);
    CglParam b(a[0], a[1], a[2], n[0]); vs_check(vAnd(vAnd(b.getINFINIT() == a[0], b.getEPS() == a[1]), vAnd(b.getEPS_COEFF() == a[2], b.getMAX_SUPPORT() == n[0])), "the constructor stores its arguments"); int from = vs_pick(vs_int("from", 0, 1)); (void)from;
    bool baseOk = true; (void)baseOk;
#if SC == 2
    P q(a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], n[1], n[2], a[11], a[12], a[13], a[14]), w(b, a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], n[1], n[2], a[11], a[12], a[13], a[14]); P &z = from ? w : q;
    if (from) baseOk = vAnd(vAnd(z.getINFINIT() == a[0], z.getEPS() == a[1]), vAnd(z.getEPS_COEFF() == a[2], z.getMAX_SUPPORT() == n[0])); else baseOk = vAnd(z.getEPS() == CglParam().getEPS(), z.getMAX_SUPPORT() == CglParam().getMAX_SUPPORT());
    double e[] = {a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], (double)n[1], (double)n[2], a[11], a[12], a[13], a[14]}, g[] = {z.getLUB(), z.getEPS_ELIM(), z.getEPS_RELAX_ABS(), z.getEPS_RELAX_REL(), z.getMAXDYN(), z.getMAXDYN_LUB(), z.getEPS_COEFF_LUB(), z.getMINVIOL(), (double)z.getUSE_INTSLACKS(), (double)z.getUSE_CG2(), z.getNormIsZero(), z.getMinReduc(), z.getAway(), z.getMaxTab()};
    for (int i = 0; i < 14; i++) baseOk = vAnd(baseOk, e[i] == g[i]);
#elif SC == 3
    bool f[4]; for (int i = 0; i < 4; i++) f[i] = vs_pick(vs_int("flag", 0, 1)); P::CleaningProcedure cp = (P::CleaningProcedure)vs_pick(vs_int("clean", 0, 6));
    P q(a[1], a[3], a[2], a[4], a[5], a[6], a[7], a[8], n[0], a[9], cp, f[0], f[1], f[2], f[3]), w(b, a[3], a[4], a[5], a[6], a[7], a[8], a[9], cp, f[0], f[1], f[2], f[3]); P &z = from ? w : q;
    baseOk = vAnd(vAnd(z.getEPS() == a[1], z.getEPS_COEFF() == a[2]), z.getMAX_SUPPORT() == n[0]); if (from) baseOk = vAnd(baseOk, z.getINFINIT() == a[0]);
    double e[] = {a[3], a[4], a[5], a[6], a[7], a[8], a[9], (double)cp, (double)f[0], (double)f[1], (double)f[2], (double)f[3], a[3], a[4], a[5], a[6], a[7], a[8], a[9], (double)cp, a[1], a[2], (double)n[0], (double)n[0]}, g[] = {z.getAway(), z.getEPS_ELIM(), z.getEPS_RELAX_ABS(), z.getEPS_RELAX_REL(), z.getMAXDYN(), z.getMINVIOL(), z.getMAX_SUPPORT_REL(), (double)z.getCLEAN_PROC(), (double)z.getUSE_INTSLACKS(), (double)z.getCHECK_DUPLICATES(), (double)z.getINTEGRAL_SCALE_CONT(), (double)z.getENFORCE_SCALING(), z.getAWAY(), z.getEpsElim(), z.getEpsRelaxAbs(), z.getEpsRelaxRel(), z.getMaxDyn(), z.getMinViol(), z.getMaxSupportRel(), (double)z.getCleaningProcedure(), z.getEps(), z.getEpsCoeff(), (double)z.getMaxSupport(), (double)z.getMaxSupportAbs()};
    for (int i = 0; i < 24; i++) baseOk = vAnd(baseOk, e[i] == g[i]); P c1, c2; c1.setEpsElim(a[4]); c2.setEPS_ELIM(a[4]); c1.setEpsRelaxAbs(a[5]); c2.setEPS_RELAX_ABS(a[5]); c1.setEpsRelaxRel(a[6]); c2.setEPS_RELAX_REL(a[6]); c1.setMaxDyn(a[7]); c2.setMAXDYN(a[7]); c1.setMinViol(a[8]); c2.setMINVIOL(a[8]); c1.setMaxSupportRel(a[9]); c2.setMAX_SUPPORT_REL(a[9]); c1.setMaxSupportAbs(n[1]); c2.setMAX_SUPPORT(n[1]); c1.setAWAY(a[10]); c2.setAway(a[10]); c1.setEps(a[11]); c2.setEPS(a[11]); c1.setEpsCoeff(a[12]); c2.setEPS_COEFF(a[12]); c1.setInfinity(a[13]); c2.setINFINIT(a[13]); c1.setUseIntSlacks(f[0]); c2.setUSE_INTSLACKS(f[0]); c1.setCheckDuplicates(f[1]); c2.setCHECK_DUPLICATES(f[1]); c1.setIntegralScaleCont(f[2]); c2.setINTEGRAL_SCALE_CONT(f[2]); c1.setEnforceScaling(f[3]); c2.setENFORCE_SCALING(f[3]); c1.setCleanProc(cp); c2.setCLEAN_PROC(cp); same(c1, c2, "both names of a parameter mean the same");
#elif SC == 4
    int def = vs_pick(vs_int("def", 0, 1)); P q(def, a[1], a[2], a[3], a[4], a[5], a[6], a[7], n[0], a[8], n[1], a[9], a[10], n[2], a[11], a[12], a[13], n[3], n[4], n[5], a[14], n[6]), w(b, def, a[3], a[4], a[5], a[6], a[7], a[8], n[1], a[9], a[10], n[2], a[11], a[12], a[13], n[3], n[4], n[5], a[14], n[6]); P &z = from ? w : q;
    baseOk = vAnd(vAnd(z.getEPS() == a[1], z.getEPS_COEFF() == a[2]), z.getMAX_SUPPORT() == n[0]); if (from) baseOk = vAnd(baseOk, z.getINFINIT() == a[0]);
    double e[] = {a[3], a[4], a[5], a[6], a[7], a[8], (double)n[1], a[9], a[10], (double)n[2], a[11], a[12], a[13], (double)n[3], (double)n[4], (double)n[5], a[14], (double)n[6]}, g[] = {z.getEPS_ELIM(), z.getEPS_RELAX_ABS(), z.getEPS_RELAX_REL(), z.getMAXDYN(), z.getMINVIOL(), z.getMAX_SUPP_REL(), (double)z.getUSE_INTSLACKS(), z.getNormIsZero(), z.getMinNormReduction(), (double)z.getMaxSumMultipliers(), z.getNormalization(), z.getAway(), z.getTimeLimit(), (double)z.getMaxNumCuts(), (double)z.getMaxNumComputedCuts(), (double)z.getMaxNonzeroesTab(), z.getColumnScalingBoundLAP(), (double)z.getSkipGomory()};
    for (int i = 0; i < 18; i++) baseOk = vAnd(baseOk, e[i] == g[i]);
    std::vector<int> l; lists(z, l); vs_check(def ? l.size() > 10 : l.size() == 5, "default strategies are there exactly when asked for"); z.resetNumRowsReduction(); z.resetNumRowsReductionLAP(); z.resetColumnSelectionStrategy(); z.resetColumnSelectionStrategyLAP(); z.resetRowSelectionStrategy(); z.resetRowSelectionStrategyLAP(); lists(z, l); vs_check(l.size() == 5, "a reset list is empty");
    int r = vs_pick(vs_int("rows", -1, 3)); z.addNumRowsReduction(r); vs_check(z.getNumRowsReduction().size() == (r >= 0 ? 1u : 0u), "a negative number of rows is ignored"); z.addNumRowsReductionLAP(r); vs_check(z.getNumRowsReductionLAP().size() == (r >= 0 ? 1u : 0u), "a negative number of rows is ignored");
    int cs = vs_pick(vs_int("cs", 0, 24)); z.addColumnSelectionStrategy((P::ColumnSelectionStrategy)cs); std::vector<P::ColumnSelectionStrategy> cc = z.getColumnSelectionStrategy(); bool okc = true, seen[32]; memset(seen, 0, sizeof seen); for (size_t i = 0; i < cc.size(); i++) { okc = okc && (cc[i] <= P::CS21 || cc[i] == P::CS_ALLCONT) && !seen[cc[i]]; seen[cc[i]] = true; } vs_check(okc && (cs == P::CS_ALL ? cc.size() == 21 : cs == P::CS_BEST ? cc.size() >= 1 : cs == P::CS_LAP_NONBASICS ? cc.empty() : cc.size() == 1 && cc[0] == cs), "a list gets exactly the strategies asked for");
    int rs = cs < 10 ? cs : 3; z.addRowSelectionStrategy((P::RowSelectionStrategy)rs); std::vector<P::RowSelectionStrategy> rr = z.getRowSelectionStrategy(); bool okr = true; memset(seen, 0, sizeof seen); for (size_t i = 0; i < rr.size(); i++) { okr = okr && rr[i] <= P::RS8 && !seen[rr[i]]; seen[rr[i]] = true; } vs_check(okr && (rs == P::RS_ALL ? rr.size() == 8 : rs == P::RS_BEST ? rr.size() >= 1 : rr.size() == 1 && rr[0] == rs), "a list gets exactly the strategies asked for");
    z.addColumnSelectionStrategyLAP((P::ColumnSelectionStrategy)cs); cc = z.getColumnSelectionStrategyLAP(); vs_check(cs == P::CS_ALL ? cc.empty() : cs == P::CS_BEST ? cc.size() >= 1 : cc.size() == 1 && cc[0] == cs, "a list gets exactly the strategies asked for"); z.addRowSelectionStrategyLAP((P::RowSelectionStrategy)rs); rr = z.getRowSelectionStrategyLAP(); vs_check(rs == P::RS_ALL ? rr.empty() : rs == P::RS_BEST ? rr.size() >= 1 : rr.size() == 1 && rr[0] == rs, "a list gets exactly the strategies asked for"); if (r == 0) copies(z);
#endif
    vs_check(baseOk, "the constructor stores its arguments"); vs_reach("constructed");
  }
}
