// Expression layer of the symbolic executor: exact rational linear forms over atoms,
// boolean formulas, intervals, dyadic granularity (for deciding IEEE exactness), z3 translation.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <deque>
#include <cmath>
#include <cstring>
#include <climits>
#include <algorithm>
#include <stdexcept>
#include <functional>
#include <time.h>

typedef mpq_class Q;
typedef mpz_class Z;
static const int GNONE = INT_MIN / 4; // "no known granularity"
static const int GALL = INT_MAX / 4;  // zero: multiple of everything

struct Inconclusive : std::runtime_error {
  Inconclusive(const std::string &s) : std::runtime_error(s) {}
};

struct Lin; struct BoolE;
enum AK { A_VAR, A_FLOOR, A_ITE, A_MUL };
struct Atom {
  int id; AK k; bool isInt; Q lo, hi; bool hl, hh; int g;
  int varIdx = -1; const Lin *a = nullptr, *b = nullptr; BoolE *c = nullptr;
  unsigned ep = 0; Q val; Z3_ast z = nullptr;
};
struct Lin {
  int id; Q c0; std::vector<std::pair<Atom *, Q>> t;
  Q lo, hi; bool hl, hh; bool integral; int g;
  mutable unsigned ep = 0; mutable Q val; mutable Z3_ast z = nullptr;
  bool isConst() const { return t.empty(); }
};
enum BK { B_TRUE, B_FALSE, B_LE, B_LT, B_EQ, B_NOT, B_AND, B_OR };
struct BoolE { int id; BK k; const Lin *l = nullptr; BoolE *a = nullptr, *b = nullptr; unsigned ep = 0; bool val = false; Z3_ast z = nullptr; BoolE *neg = nullptr; };

static inline double nowS() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static inline size_t hz(const mpz_t z) { size_t h = (size_t)mpz_sgn(z) * 31 + mpz_size(z); for (size_t i = 0; i < mpz_size(z); i++) h = h * 1000003u ^ mpz_getlimbn(z, i); return h; }
static inline size_t hq(const Q &q) { return hz(q.get_num_mpz_t()) * 16777619u ^ hz(q.get_den_mpz_t()); }
static inline int v2(const Q &q) { // largest g with q multiple of 2^g, GNONE if not dyadic
  if (q == 0) return GALL;
  const Z &d = q.get_den();
  if (mpz_popcount(d.get_mpz_t()) != 1) return GNONE;
  int e = (int)mpz_scan1(q.get_num_mpz_t(), 0) - (int)mpz_scan1(d.get_mpz_t(), 0);
  return e;
}
static inline Z qfloor(const Q &q) { Z r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static inline Z qceil(const Q &q) { Z r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
// nearest double (ties to even) of a rational
static inline double qToD(const Q &q) {
  double d = mpq_get_d(q.get_mpq_t()); // truncates toward zero
  if (std::isinf(d)) return d;
  double n = q > 0 ? std::nextafter(d, HUGE_VAL) : (q < 0 ? std::nextafter(d, -HUGE_VAL) : d);
  if (n == d || std::isinf(n)) return d;
  Q a = q - Q(d), b = Q(n) - q; a = abs(a); b = abs(b);
  if (a < b) return d; if (b < a) return n;
  uint64_t u; memcpy(&u, &d, 8); return (u & 1) ? n : d;
}
static inline int ceilLog2(const Q &m) { // smallest e with m <= 2^e  (m>0)
  const Z &n = m.get_num(), &d = m.get_den();
  int e = (int)mpz_sizeinbase(n.get_mpz_t(), 2) - (int)mpz_sizeinbase(d.get_mpz_t(), 2) - 1;
  for (;; e++) { Q p; if (e >= 0) { Z t = 1; t <<= e; p = t; } else { Z t = 1; t <<= -e; p = Q(1, 1) / Q(t); } if (m <= p) return e; }
}
static inline Q pow2(int e) { Z t = 1; if (e >= 0) { t <<= e; return Q(t); } t <<= -e; return Q(1) / Q(t); }

struct ExprCtx {
  std::deque<Atom> atoms; std::deque<Lin> lins; std::deque<BoolE> bools;
  std::unordered_multimap<size_t, Lin *> linMap; std::unordered_multimap<size_t, Atom *> atomMap; std::unordered_multimap<size_t, BoolE *> boolMap;
  std::vector<Atom *> vars; std::vector<Q> model; unsigned epoch = 1;
  BoolE *T, *F;
  unsigned long nRoundVars = 0;
  ExprCtx() { bools.emplace_back(); T = &bools.back(); T->id = 0; T->k = B_TRUE; bools.emplace_back(); F = &bools.back(); F->id = 1; F->k = B_FALSE; T->neg = F; F->neg = T; }

  // ---- Lin ----
  const Lin *mk(Q c0, std::vector<std::pair<Atom *, Q>> t) {
    size_t h = hq(c0); for (auto &p : t) h = (h * 1099511628211ull) ^ (size_t)p.first->id * 2654435761u ^ hq(p.second) * 3;
    auto r = linMap.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) { Lin *l = i->second; if (l->c0 == c0 && l->t == t) return l; }
    lins.emplace_back(); Lin *l = &lins.back(); l->id = lins.size(); l->c0 = c0; l->t = std::move(t);
    l->lo = l->hi = c0; l->hl = l->hh = true; l->integral = c0.get_den() == 1; l->g = v2(c0);
    for (auto &p : l->t) {
      Atom *a = p.first; const Q &k = p.second; bool pos = k > 0;
      if (pos ? a->hl : a->hh) { if (l->hl) l->lo += k * (pos ? a->lo : a->hi); } else l->hl = false;
      if (pos ? a->hh : a->hl) { if (l->hh) l->hi += k * (pos ? a->hi : a->lo); } else l->hh = false;
      if (!a->isInt || k.get_den() != 1) l->integral = false;
      int kg = v2(k); if (kg == GNONE || a->g == GNONE) l->g = GNONE; else if (l->g != GNONE) l->g = std::min(l->g, a->g + kg);
    }
    if (l->integral) { l->g = std::max(l->g, 0); }
    linMap.emplace(h, l); return l;
  }
  const Lin *cst(const Q &q) { return mk(q, {}); }
  const Lin *ofAtom(Atom *a) { return mk(0, {{a, Q(1)}}); }
  const Lin *axpy(const Lin *a, const Q &k, const Lin *b) { // a + k*b
    if (k == 0) return a; std::vector<std::pair<Atom *, Q>> t; t.reserve(a->t.size() + b->t.size());
    size_t i = 0, j = 0;
    while (i < a->t.size() || j < b->t.size()) {
      if (j >= b->t.size() || (i < a->t.size() && a->t[i].first->id < b->t[j].first->id)) t.push_back(a->t[i++]);
      else if (i >= a->t.size() || b->t[j].first->id < a->t[i].first->id) { t.emplace_back(b->t[j].first, k * b->t[j].second); j++; }
      else { Q s = a->t[i].second + k * b->t[j].second; if (s != 0) t.emplace_back(a->t[i].first, s); i++; j++; }
    }
    return mk(a->c0 + k * b->c0, std::move(t));
  }
  const Lin *add(const Lin *a, const Lin *b) { return axpy(a, 1, b); }
  const Lin *sub(const Lin *a, const Lin *b) { return axpy(a, -1, b); }
  const Lin *scale(const Lin *a, const Q &k) { static const Q z0 = 0; return axpy(cst(z0), k, a); }
  Atom *findAtom(size_t h, AK k, const Lin *a, const Lin *b, BoolE *c) {
    auto r = atomMap.equal_range(h); for (auto i = r.first; i != r.second; ++i) { Atom *x = i->second; if (x->k == k && x->a == a && x->b == b && x->c == c) return x; } return nullptr;
  }
  Atom *newAtom(AK k, bool isInt) { atoms.emplace_back(); Atom *x = &atoms.back(); x->id = atoms.size(); x->k = k; x->isInt = isInt; x->hl = x->hh = false; x->g = isInt ? 0 : GNONE; return x; }
  Atom *newVar(bool isInt, const Q &lo, const Q &hi, int g, const Q &val) {
    Atom *x = newAtom(A_VAR, isInt); x->lo = lo; x->hi = hi; x->hl = x->hh = true; x->g = isInt ? 0 : g; x->varIdx = vars.size(); vars.push_back(x);
    if ((int)model.size() <= x->varIdx) model.push_back(val); return x;
  }
  const Lin *floorL(const Lin *l) {
    if (l->integral) return l;
    // split into integral part and rest
    std::vector<std::pair<Atom *, Q>> ti, tr; Q ci = qfloor(l->c0), cr = l->c0 - ci;
    for (auto &p : l->t) { if (p.first->isInt) { Q f = qfloor(p.second); Q r = p.second - f; if (f != 0) ti.emplace_back(p.first, f); if (r != 0) tr.emplace_back(p.first, r); } else tr.push_back(p); }
    const Lin *I = mk(ci, ti), *R = mk(cr, tr);
    if (R->isConst()) return axpy(I, 1, cst(qfloor(R->c0)));
    if (R->hl && R->hh && qfloor(R->lo) == qfloor(R->hi)) return axpy(I, 1, cst(qfloor(R->lo)));
    size_t h = (size_t)R->id * 7919 + 1; Atom *x = findAtom(h, A_FLOOR, R, nullptr, nullptr);
    if (!x) { x = newAtom(A_FLOOR, true); x->a = R; x->hl = R->hl; x->hh = R->hh; if (R->hl) x->lo = qfloor(R->lo); if (R->hh) x->hi = qfloor(R->hi); atomMap.emplace(h, x); }
    return add(I, ofAtom(x));
  }
  const Lin *ite(BoolE *c, const Lin *x, const Lin *y) {
    if (c == T || x == y) return x; if (c == F) return y;
    if (c->k == B_NOT) return ite(c->a, y, x);
    const Lin *d = sub(x, y);
    if (d->isConst()) return axpy(y, d->c0, ofAtom(iteAtom(c, cst(1), cst(0))));
    return ofAtom(iteAtom(c, x, y));
  }
  Atom *iteAtom(BoolE *c, const Lin *x, const Lin *y) {
    size_t h = ((size_t)c->id * 1000003u + x->id) * 1000003u + y->id + 2; Atom *a = findAtom(h, A_ITE, x, y, c); if (a) return a;
    bool I = x->integral && y->integral && allInt(x) && allInt(y);
    a = newAtom(A_ITE, I); a->a = x; a->b = y; a->c = c; a->hl = x->hl && y->hl; a->hh = x->hh && y->hh;
    if (a->hl) a->lo = std::min(x->lo, y->lo); if (a->hh) a->hi = std::max(x->hi, y->hi);
    if (x->g == GNONE || y->g == GNONE) a->g = GNONE; else a->g = std::min(x->g, y->g); if (I) a->g = std::max(a->g, 0);
    if (a->g == GALL) a->g = 0;
    atomMap.emplace(h, a); return a;
  }
  static bool allInt(const Lin *l) { for (auto &p : l->t) if (!p.first->isInt) return false; return true; }
  const Lin *mul(const Lin *a, const Lin *b) {
    if (a->isConst()) return scale(b, a->c0); if (b->isConst()) return scale(a, b->c0);
    auto rng = [](const Lin *l) -> long { if (!l->integral || !l->hl || !l->hh) return 1000000; Q r = l->hi - l->lo; if (r > 1000) return 1000000; return r.get_num().get_si(); };
    long ra = rng(a), rb = rng(b); if (rb < ra || (ra == rb && b->id < a->id && a->t.size() >= b->t.size())) { std::swap(a, b); std::swap(ra, rb); }
    if (ra <= 16) { // piecewise-linear product
      const Lin *r = scale(b, a->hi);
      for (long k = ra - 1; k >= 0; k--) { Q v = a->lo + k; r = ite(eq0(sub(a, cst(v))), scale(b, v), r); }
      return r;
    }
    if (a->id > b->id) std::swap(a, b);
    size_t h = ((size_t)a->id * 1000003u + b->id) * 31 + 3; Atom *x = findAtom(h, A_MUL, a, b, nullptr);
    if (!x) {
      x = newAtom(A_MUL, a->integral && b->integral && allInt(a) && allInt(b)); x->a = a; x->b = b;
      if (a->hl && a->hh && b->hl && b->hh) { Q p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi}; x->lo = *std::min_element(p, p + 4); x->hi = *std::max_element(p, p + 4); if (a == b && x->lo < 0) x->lo = 0; x->hl = x->hh = true; }
      x->g = (a->g == GNONE || b->g == GNONE) ? GNONE : a->g + b->g; atomMap.emplace(h, x);
    }
    return ofAtom(x);
  }
  // ---- Bool ----
  BoolE *mkB(BK k, const Lin *l, BoolE *a, BoolE *b) {
    size_t h = ((((size_t)k * 1000003u) + (l ? l->id : 0)) * 1000003u + (a ? a->id : 0)) * 1000003u + (b ? b->id : 0);
    auto r = boolMap.equal_range(h); for (auto i = r.first; i != r.second; ++i) { BoolE *x = i->second; if (x->k == k && x->l == l && x->a == a && x->b == b) return x; }
    bools.emplace_back(); BoolE *x = &bools.back(); x->id = bools.size(); x->k = k; x->l = l; x->a = a; x->b = b; boolMap.emplace(h, x); return x;
  }
  BoolE *bc(bool v) { return v ? T : F; }
  // normalise coefficient scaling; returns scaled lin (positive factor; for eq any sign)
  const Lin *norm(const Lin *l, bool signFree) {
    Z L = 1, G = 0; for (auto &p : l->t) { L = lcm(L, p.second.get_den()); }
    for (auto &p : l->t) { Z n = p.second.get_num() * (L / p.second.get_den()); G = gcd(G, n); }
    Q f = Q(L) / Q(G); if (signFree && l->t[0].second < 0) f = -f; return scale(l, f);
  }
  BoolE *cmpIte(const Lin *l, BK k, bool &done) { // single ite atom with constant leaves
    done = false; if (l->t.size() != 1) return nullptr; Atom *a = l->t[0].first; if (a->k != A_ITE) return nullptr;
    if (!a->a->isConst() && !a->b->isConst()) return nullptr;
    if (!(a->a->isConst() && a->b->isConst())) { // expand when one leaf is constant: keeps nested select chains boolean
      static int depth = 0; if (depth > 6) return nullptr; depth++;
      const Lin *x = axpy(cst(l->c0), l->t[0].second, a->a), *y = axpy(cst(l->c0), l->t[0].second, a->b);
      BoolE *bx = cmp0(x, k), *by = cmp0(y, k); depth--; done = true; return or_(and_(a->c, bx), and_(not_(a->c), by));
    }
    auto ev = [&](const Lin *leaf) { Q v = l->c0 + l->t[0].second * leaf->c0; return k == B_LE ? v <= 0 : k == B_LT ? v < 0 : v == 0; };
    bool x = ev(a->a), y = ev(a->b); done = true; if (x && y) return T; if (!x && !y) return F; return x ? a->c : not_(a->c);
  }
  BoolE *cmp0(const Lin *l, BK k) { return k == B_LE ? le0(l) : k == B_LT ? lt0(l) : eq0(l); }
  BoolE *le0(const Lin *l) {
    if (l->isConst()) return bc(l->c0 <= 0); if (l->hh && l->hi <= 0) return T; if (l->hl && l->lo > 0) return F;
    bool d; BoolE *r = cmpIte(l, B_LE, d); if (d) return r; l = norm(l, false);
    if (allInt(l)) { Q c = qceil(l->c0); if (c != l->c0) { l = mk(c, l->t); } }
    return mkB(B_LE, l, nullptr, nullptr);
  }
  BoolE *lt0(const Lin *l) {
    if (l->isConst()) return bc(l->c0 < 0); if (l->hh && l->hi < 0) return T; if (l->hl && l->lo >= 0) return F;
    bool d; BoolE *r = cmpIte(l, B_LT, d); if (d) return r; l = norm(l, false);
    if (allInt(l)) { Q c = qceil(l->c0); if (c != l->c0) return le0(mk(c, l->t)); return le0(mk(l->c0 + 1, l->t)); }
    // canonical: represent  l<0 as not(-l<=0)
    return not_(mkB(B_LE, scale(l, -1), nullptr, nullptr));
  }
  BoolE *eq0(const Lin *l) {
    if (l->isConst()) return bc(l->c0 == 0); if ((l->hl && l->lo > 0) || (l->hh && l->hi < 0)) return F;
    if (l->hl && l->hh && l->lo == l->hi) return T;
    bool d; BoolE *r = cmpIte(l, B_EQ, d); if (d) return r; l = norm(l, true);
    if (allInt(l) && l->c0.get_den() != 1) return F;
    return mkB(B_EQ, l, nullptr, nullptr);
  }
  BoolE *not_(BoolE *a) { if (a->neg) return a->neg; BoolE *r; if (a->k == B_NOT) r = a->a; else r = mkB(B_NOT, nullptr, a, nullptr); a->neg = r; r->neg = a; return r; }
  BoolE *and_(BoolE *a, BoolE *b) { if (a == F || b == F) return F; if (a == T) return b; if (b == T) return a; if (a == b) return a; if (a == not_(b)) return F; if (a->id > b->id) std::swap(a, b); return mkB(B_AND, nullptr, a, b); }
  BoolE *or_(BoolE *a, BoolE *b) { if (a == T || b == T) return T; if (a == F) return b; if (b == F) return a; if (a == b) return a; if (a == not_(b)) return T; if (a->id > b->id) std::swap(a, b); return mkB(B_OR, nullptr, a, b); }
  BoolE *xor_(BoolE *a, BoolE *b) { return or_(and_(a, not_(b)), and_(not_(a), b)); }
  BoolE *iteB(BoolE *c, BoolE *a, BoolE *b) { if (c == T) return a; if (c == F) return b; if (a == b) return a; return or_(and_(c, a), and_(not_(c), b)); }

  // ---- evaluation under the current model ----
  const Q &eval(Atom *a) {
    if (a->k == A_VAR) return model[a->varIdx];
    if (a->ep == epoch) return a->val;
    if (a->k == A_FLOOR) a->val = qfloor(eval(a->a)); else if (a->k == A_ITE) a->val = eval(a->c) ? eval(a->a) : eval(a->b); else a->val = eval(a->a) * eval(a->b);
    a->ep = epoch; return a->val;
  }
  const Q &eval(const Lin *l) {
    if (l->t.empty()) return l->c0; if (l->ep == epoch) return l->val; Q v = l->c0; for (auto &p : l->t) v += p.second * eval(p.first); l->val = v; l->ep = epoch; return l->val;
  }
  bool eval(BoolE *b) {
    if (b->ep == epoch) return b->val; bool v = false;
    switch (b->k) { case B_TRUE: v = true; break; case B_FALSE: v = false; break; case B_LE: v = eval(b->l) <= 0; break; case B_LT: v = eval(b->l) < 0; break; case B_EQ: v = eval(b->l) == 0; break;
      case B_NOT: v = !eval(b->a); break; case B_AND: v = eval(b->a) && eval(b->b); break; case B_OR: v = eval(b->a) || eval(b->b); break; }
    b->val = v; b->ep = epoch; return v;
  }
};

struct SolverStats { unsigned long sat = 0, unsat = 0, unknown = 0; double time = 0, maxq = 0; };

struct Solver {
  ExprCtx &X; z3::context &C; z3::solver S; SolverStats &st; unsigned rl; size_t nVarsDecl = 0; std::vector<z3::expr> keep; std::vector<BoolE *> pcList; bool nonlinear = false;
  Solver(ExprCtx &x, z3::context &c, SolverStats &s, unsigned rlimit) : X(x), C(c), S(c, z3::solver::simple()), st(s), rl(rlimit) {
    z3::params p(C); p.set("rlimit", rl); S.set(p);
  }
  z3::expr hold(z3::expr e) { keep.push_back(e); return e; }
  z3::expr num(const Q &q, bool isInt) { return isInt ? C.int_val(q.get_num().get_str().c_str()) : C.real_val(q.get_str().c_str()); }
  z3::expr tr(Atom *a) {
    if (a->z) return z3::expr(C, a->z); z3::expr e(C);
    switch (a->k) {
      case A_VAR: { std::string n = "v" + std::to_string(a->varIdx); e = a->isInt ? C.int_const(n.c_str()) : C.real_const(n.c_str()); break; }
      case A_FLOOR: e = z3::expr(C, Z3_mk_real2int(C, real(a->a))); break;
      case A_ITE: e = a->isInt ? z3::ite(tr(a->c), tr(a->a, true), tr(a->b, true)) : z3::ite(tr(a->c), real(a->a), real(a->b)); break;
      case A_MUL: nonlinear = true; e = a->isInt ? tr(a->a, true) * tr(a->b, true) : real(a->a) * real(a->b); break;
    }
    hold(e); a->z = e; return e;
  }
  z3::expr real(const Lin *l) { return tr(l, false); }
  z3::expr tr(const Lin *l, bool wantInt) {
    Z3_ast &cache = l->z; if (cache) { z3::expr e(C, cache); if (e.is_int() == wantInt) return e; }
    std::vector<z3::expr> s; for (auto &p : l->t) { z3::expr a = tr(p.first); if (!wantInt && p.first->isInt) a = z3::expr(C, Z3_mk_int2real(C, a)); if (p.second == 1) s.push_back(a); else s.push_back(num(p.second, wantInt) * a); }
    if (l->c0 != 0 || s.empty()) s.push_back(num(l->c0, wantInt));
    z3::expr e = s[0]; if (s.size() > 1) { z3::expr_vector v(C); for (auto &x : s) v.push_back(x); e = z3::sum(v); }
    hold(e); cache = e; return e;
  }
  z3::expr tr(BoolE *b) {
    if (b->z) return z3::expr(C, b->z); z3::expr e(C);
    switch (b->k) {
      case B_TRUE: e = C.bool_val(true); break; case B_FALSE: e = C.bool_val(false); break;
      case B_LE: case B_LT: case B_EQ: { // sum <= -c0
        bool I = ExprCtx::allInt(b->l) && b->l->integral; const Lin *s = X.mk(0, b->l->t); z3::expr L = tr(s, I), R = num(-b->l->c0, I); e = b->k == B_LE ? L <= R : b->k == B_LT ? L < R : L == R; break; }
      case B_NOT: e = !tr(b->a); break; case B_AND: e = tr(b->a) && tr(b->b); break; case B_OR: e = tr(b->a) || tr(b->b); break;
    }
    hold(e); b->z = e; return e;
  }
  void declVars() { for (; nVarsDecl < X.vars.size(); nVarsDecl++) { Atom *a = X.vars[nVarsDecl]; z3::expr v = tr(a); if (a->hl) S.add(v >= num(a->lo, a->isInt)); if (a->hh) S.add(v <= num(a->hi, a->isInt)); } }
  void add(BoolE *b) { if (b == X.T) return; declVars(); S.add(tr(b)); pcList.push_back(b); }
  z3::check_result timed(std::function<z3::check_result()> f) {
    double t = nowS(); z3::check_result r; try { r = f(); } catch (z3::exception &e) { r = z3::unknown; } double d = nowS() - t; st.time += d; if (d > st.maxq) st.maxq = d;
    if (r == z3::sat) st.sat++; else if (r == z3::unsat) st.unsat++; else st.unknown++; return r;
  }
  static Q numQ(z3::expr v) {
    if (v.is_numeral()) { std::string s = Z3_get_numeral_string(v.ctx(), v); Q q(s); q.canonicalize(); return q; }
    if (v.is_algebraic()) { Z3_ast lo = Z3_get_algebraic_number_lower(v.ctx(), v, 40); z3::expr l(v.ctx(), lo); Q q(Z3_get_numeral_string(v.ctx(), l)); q.canonicalize(); return q; }
    return Q(0);
  }
  void getModel(z3::model m, std::vector<Q> &out) { out.clear(); for (Atom *a : X.vars) { z3::expr v = m.eval(tr(a), true); out.push_back(numQ(v)); } }
  // is PC && extra satisfiable?  fills model on sat
  z3::check_result query(BoolE *extra, std::vector<Q> *out) {
    declVars(); z3::expr e = tr(extra); S.push(); S.add(e);
    z3::check_result r = timed([&] { return S.check(); });
    if (r == z3::sat && out) getModel(S.get_model(), *out);
    S.pop();
    if (r == z3::unknown) { // retry, non-incremental portfolio with preprocessing
      z3::solver s2(C); z3::params p(C); p.set("rlimit", rl * 4u); s2.set(p); for (auto *a : X.vars) { z3::expr v = tr(a); if (a->hl) s2.add(v >= num(a->lo, a->isInt)); if (a->hh) s2.add(v <= num(a->hi, a->isInt)); }
      for (auto *b : pcList) s2.add(tr(b)); s2.add(e); st.unknown--; r = timed([&] { return s2.check(); }); if (r == z3::sat && out) getModel(s2.get_model(), *out);
    }
    return r;
  }
};
