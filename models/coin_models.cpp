// Executable models of the CoinUtils/Osi classes Cgl calls.  Only binaries of those libraries are
// installed, so the symbolic executor runs these instead; they are written from the class headers
// (same layouts, the headers' own inline code is used as is).  The native replay of every
// counterexample and of the translation-validation samples uses the real libraries.
#include <cstring>
#include <cmath>
#include <cfloat>
#include <algorithm>
#define private public
#define protected public
#include "CoinError.hpp"
#include "CoinFinite.hpp"
#include "CoinPackedVectorBase.hpp"
#include "CoinPackedVector.hpp"
#include "CoinShallowPackedVector.hpp"
#include "CoinPackedMatrix.hpp"
#include "CoinMessageHandler.hpp"
#include "CoinIndexedVector.hpp"
#include "CoinWarmStartBasis.hpp"
#include "OsiSolverInterface.hpp"
#include "OsiCuts.hpp"
#include "OsiRowCut.hpp"
#include "OsiColCut.hpp"
#include "OsiRowCutDebugger.hpp"
#undef private
#undef protected

bool CoinError::printErrors_ = false;

// ---------------------------------------------------------------- libstdc++ out-of-line parts
namespace std {
typedef _Rb_tree_node_base NB;
static NB *rbInc(NB *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NB *rbDec(NB *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NB *_Rb_tree_increment(NB *x) throw() { return rbInc(x); }
const NB *_Rb_tree_increment(const NB *x) throw() { return rbInc(const_cast<NB *>(x)); }
NB *_Rb_tree_decrement(NB *x) throw() { return rbDec(x); }
const NB *_Rb_tree_decrement(const NB *x) throw() { return rbDec(const_cast<NB *>(x)); }
// unbalanced: same order, same observable behaviour
void _Rb_tree_insert_and_rebalance(const bool left, NB *x, NB *p, NB &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
NB *_Rb_tree_rebalance_for_erase(NB *const z, NB &h) throw() {
  NB *nl = 0, *nr = 0;
  if (h._M_left == z) nl = rbInc(z);
  if (h._M_right == z) nr = rbDec(z);
  NB *r;
  if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left;
  else { NB *s = z->_M_right; while (s->_M_left) s = s->_M_left;
    if (s->_M_parent != z) { s->_M_parent->_M_left = s->_M_right; if (s->_M_right) s->_M_right->_M_parent = s->_M_parent; s->_M_right = z->_M_right; s->_M_right->_M_parent = s; }
    s->_M_left = z->_M_left; s->_M_left->_M_parent = s; r = s; }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (nl) h._M_left = nl; if (nr) h._M_right = nr;
  return z;
}
}
#include <unordered_map>
namespace std { namespace __detail {
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni <= _M_next_resize) return make_pair(false, (size_t)0);
  size_t minb = ne + ni; if (!_M_next_resize && minb < 11) minb = 11;
  if (minb >= nb) { size_t want = minb + 1 > 2 * nb ? minb + 1 : 2 * nb; static const size_t pr[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753}; size_t i = 0; while (pr[i] < want) i++; _M_next_resize = pr[i]; return make_pair(true, pr[i]); }
  _M_next_resize = nb; return make_pair(false, (size_t)0);
}
} }

// ---------------------------------------------------------------- CoinPackedVectorBase
CoinPackedVectorBase::CoinPackedVectorBase() : maxIndex_(-COIN_INT_MAX), minIndex_(COIN_INT_MAX), indexSetPtr_(NULL), testForDuplicateIndex_(false), testedDuplicateIndex_(false) {}
CoinPackedVectorBase::~CoinPackedVectorBase() { testForDuplicateIndex_ = false; }
void CoinPackedVectorBase::clearIndexSet() const {}
void CoinPackedVectorBase::clearBase() const { maxIndex_ = -COIN_INT_MAX; minIndex_ = COIN_INT_MAX; testedDuplicateIndex_ = false; }
void CoinPackedVectorBase::duplicateIndex(const char *m, const char *c) const {
  const int n = getNumElements(); const int *ix = getIndices();
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (ix[i] == ix[j]) throw CoinError("Duplicate index found", m ? m : "indexSet", c ? c : "CoinPackedVectorBase");
  testedDuplicateIndex_ = true;
}
void CoinPackedVectorBase::setTestForDuplicateIndex(bool t) const { if (t) { testForDuplicateIndex_ = true; duplicateIndex("setTestForDuplicateIndex", "CoinPackedVectorBase"); } else { testForDuplicateIndex_ = false; testedDuplicateIndex_ = false; } }
int CoinPackedVectorBase::findIndex(int i) const { const int n = getNumElements(); const int *ix = getIndices(); for (int j = 0; j < n; j++) if (ix[j] == i) return j; return -1; }
bool CoinPackedVectorBase::isExistingIndex(int i) const { return findIndex(i) != -1; }
double CoinPackedVectorBase::operator[](int i) const { int p = findIndex(i); return p == -1 ? 0.0 : getElements()[p]; }
double CoinPackedVectorBase::dotProduct(const double *d) const { const int n = getNumElements(); const int *ix = getIndices(); const double *e = getElements(); double s = 0.0; for (int i = n - 1; i >= 0; --i) s += e[i] * d[ix[i]]; return s; }
double CoinPackedVectorBase::sum() const { double s = 0.0; const int n = getNumElements(); const double *e = getElements(); for (int i = 0; i < n; i++) s += e[i]; return s; }
double CoinPackedVectorBase::oneNorm() const { double s = 0.0; const int n = getNumElements(); const double *e = getElements(); for (int i = n - 1; i >= 0; --i) s += fabs(e[i]); return s; }
double CoinPackedVectorBase::normSquare() const { double s = 0.0; const int n = getNumElements(); const double *e = getElements(); for (int i = 0; i < n; i++) s += e[i] * e[i]; return s; }
double CoinPackedVectorBase::twoNorm() const { return sqrt(normSquare()); }
double CoinPackedVectorBase::infNorm() const { double s = 0.0; const int n = getNumElements(); const double *e = getElements(); for (int i = n - 1; i >= 0; --i) { double a = fabs(e[i]); if (a > s) s = a; } return s; }
int CoinPackedVectorBase::getMaxIndex() const { int m = -COIN_INT_MAX; for (int i = 0; i < getNumElements(); i++) if (getIndices()[i] > m) m = getIndices()[i]; return m; }
int CoinPackedVectorBase::getMinIndex() const { int m = COIN_INT_MAX; for (int i = 0; i < getNumElements(); i++) if (getIndices()[i] < m) m = getIndices()[i]; return m; }
bool CoinPackedVectorBase::operator==(const CoinPackedVectorBase &r) const { if (getNumElements() != r.getNumElements()) return false; for (int i = 0; i < getNumElements(); i++) if (getIndices()[i] != r.getIndices()[i] || getElements()[i] != r.getElements()[i]) return false; return true; }
bool CoinPackedVectorBase::operator!=(const CoinPackedVectorBase &r) const { return !(*this == r); }

// ---------------------------------------------------------------- CoinPackedVector
void CoinPackedVector::clear() { nElements_ = 0; clearBase(); }
void CoinPackedVector::reserve(int n) {
  if (n <= capacity_) return; capacity_ = n; int *ti = indices_; int *to = origIndices_; double *te = elements_;
  indices_ = new int[n]; origIndices_ = new int[n]; elements_ = new double[n];
  if (nElements_ > 0) { memcpy(indices_, ti, nElements_ * sizeof(int)); memcpy(origIndices_, to, nElements_ * sizeof(int)); memcpy(elements_, te, nElements_ * sizeof(double)); }
  delete[] te; delete[] to; delete[] ti;
}
void CoinPackedVector::gutsOfSetVector(int size, const int *inds, const double *elems, bool t, const char *m) {
  if (size < 0) throw CoinError("negative number of indices", m, "CoinPackedVector");
  clear();
  if (size > 0) { reserve(size); nElements_ = size; memcpy(indices_, inds, size * sizeof(int)); memcpy(elements_, elems, size * sizeof(double)); for (int i = 0; i < size; i++) origIndices_[i] = i; }
  testForDuplicateIndex_ = t; if (t) duplicateIndex(m, "CoinPackedVector");
}
void CoinPackedVector::gutsOfSetConstant(int size, const int *inds, double v, bool t, const char *m) {
  if (size < 0) throw CoinError("negative number of indices", m, "CoinPackedVector");
  clear();
  if (size > 0) { reserve(size); nElements_ = size; memcpy(indices_, inds, size * sizeof(int)); for (int i = 0; i < size; i++) { elements_[i] = v; origIndices_[i] = i; } }
  testForDuplicateIndex_ = t; if (t) duplicateIndex(m, "CoinPackedVector");
}
CoinPackedVector::CoinPackedVector(bool t) : CoinPackedVectorBase(), indices_(NULL), elements_(NULL), nElements_(0), origIndices_(NULL), capacity_(0) { testForDuplicateIndex_ = t; }
CoinPackedVector::CoinPackedVector(int size, const int *inds, const double *elems, bool t) : CoinPackedVectorBase(), indices_(NULL), elements_(NULL), nElements_(0), origIndices_(NULL), capacity_(0) { gutsOfSetVector(size, inds, elems, t, "constructor for array value"); }
CoinPackedVector::CoinPackedVector(int size, const int *inds, double v, bool t) : CoinPackedVectorBase(), indices_(NULL), elements_(NULL), nElements_(0), origIndices_(NULL), capacity_(0) { gutsOfSetConstant(size, inds, v, t, "constructor for constant value"); }
CoinPackedVector::CoinPackedVector(const CoinPackedVector &x) : CoinPackedVectorBase(), indices_(NULL), elements_(NULL), nElements_(0), origIndices_(NULL), capacity_(0) { gutsOfSetVector(x.nElements_, x.indices_, x.elements_, x.testForDuplicateIndex_, "copy constructor"); }
CoinPackedVector::CoinPackedVector(const CoinPackedVectorBase &x) : CoinPackedVectorBase(), indices_(NULL), elements_(NULL), nElements_(0), origIndices_(NULL), capacity_(0) { gutsOfSetVector(x.getNumElements(), x.getIndices(), x.getElements(), x.testForDuplicateIndex(), "copy constructor from base"); }
CoinPackedVector::~CoinPackedVector() { delete[] indices_; delete[] origIndices_; delete[] elements_; }
CoinPackedVector &CoinPackedVector::operator=(const CoinPackedVector &x) { if (this != &x) gutsOfSetVector(x.nElements_, x.indices_, x.elements_, x.testForDuplicateIndex_, "operator="); return *this; }
CoinPackedVector &CoinPackedVector::operator=(const CoinPackedVectorBase &x) { if (this != &x) gutsOfSetVector(x.getNumElements(), x.getIndices(), x.getElements(), x.testForDuplicateIndex(), "operator= from base"); return *this; }
void CoinPackedVector::setVector(int n, const int *i, const double *e, bool t) { gutsOfSetVector(n, i, e, t, "setVector"); }
void CoinPackedVector::setConstant(int n, const int *i, double e, bool t) { gutsOfSetConstant(n, i, e, t, "setConstant"); }
void CoinPackedVector::setElement(int i, double e) { if (i >= nElements_) throw CoinError("index >= size()", "setElement", "CoinPackedVector"); if (i < 0) throw CoinError("index < 0", "setElement", "CoinPackedVector"); elements_[i] = e; }
void CoinPackedVector::insert(int index, double e) {
  const int s = nElements_;
  if (testForDuplicateIndex_) { for (int j = 0; j < s; j++) if (indices_[j] == index) throw CoinError("Index already exists", "insert", "CoinPackedVector"); }
  if (capacity_ <= s) { reserve(std::max(5, 2 * capacity_)); }
  indices_[s] = index; elements_[s] = e; origIndices_[s] = s; ++nElements_;
}
void CoinPackedVector::append(const CoinPackedVectorBase &c) {
  const int cs = c.getNumElements(); if (cs == 0) return; const int s = nElements_;
  if (capacity_ < s + cs) reserve(std::max(s + cs, 2 * capacity_));
  memcpy(indices_ + s, c.getIndices(), cs * sizeof(int)); memcpy(elements_ + s, c.getElements(), cs * sizeof(double)); for (int i = 0; i < cs; i++) origIndices_[s + i] = s + i;
  nElements_ += cs; if (testForDuplicateIndex_) duplicateIndex("append", "CoinPackedVector");
}
void CoinPackedVector::swap(int i, int j) { if (i >= nElements_ || i < 0 || j >= nElements_ || j < 0) throw CoinError("index out of range", "swap", "CoinPackedVector"); int t = indices_[i]; indices_[i] = indices_[j]; indices_[j] = t; double e = elements_[i]; elements_[i] = elements_[j]; elements_[j] = e; }
void CoinPackedVector::truncate(int n) { if (n > nElements_) throw CoinError("new size > current size", "truncate", "CoinPackedVector"); if (n < 0) throw CoinError("new size < 0", "truncate", "CoinPackedVector"); nElements_ = n; clearBase(); }
void CoinPackedVector::operator*=(double v) { for (int i = 0; i < nElements_; i++) elements_[i] *= v; }
void CoinPackedVector::operator/=(double v) { for (int i = 0; i < nElements_; i++) elements_[i] /= v; }
void CoinPackedVector::operator+=(double v) { for (int i = 0; i < nElements_; i++) elements_[i] += v; }
void CoinPackedVector::operator-=(double v) { for (int i = 0; i < nElements_; i++) elements_[i] -= v; }
CoinShallowPackedVector::CoinShallowPackedVector(int n, const int *i, const double *e, bool t) : CoinPackedVectorBase(), indices_(i), elements_(e), nElements_(n) { testForDuplicateIndex_ = t; if (t) duplicateIndex("explicit constructor", "CoinShallowPackedVector"); }

// ---------------------------------------------------------------- CoinPackedMatrix (kept without gaps)
static void pmFree(CoinPackedMatrix *m) { delete[] m->length_; delete[] m->start_; delete[] m->index_; delete[] m->element_; m->length_ = NULL; m->start_ = NULL; m->index_ = NULL; m->element_ = NULL; }
void CoinPackedMatrix::gutsOfDestructor() { pmFree(this); }
CoinPackedMatrix::CoinPackedMatrix() : colOrdered_(true), extraGap_(0.0), extraMajor_(0.0), element_(0), index_(0), length_(0), majorDim_(0), minorDim_(0), size_(0), maxMajorDim_(0), maxSize_(0) { start_ = new CoinBigIndex[1]; start_[0] = 0; }
void CoinPackedMatrix::gutsOfCopyOf(const bool co, const int minor, const int major, const CoinBigIndex, const double *elem, const int *ind, const CoinBigIndex *start, const int *len, const double em, const double eg) {
  colOrdered_ = co; majorDim_ = major; minorDim_ = minor; extraGap_ = eg; extraMajor_ = em; maxMajorDim_ = major; int tot = 0;
  for (int i = 0; i < major; i++) tot += len ? len[i] : (int)(start[i + 1] - start[i]);
  size_ = tot; maxSize_ = tot; length_ = major ? new int[major] : NULL; start_ = new CoinBigIndex[major + 1]; start_[0] = 0; element_ = tot ? new double[tot] : NULL; index_ = tot ? new int[tot] : NULL;
  for (int i = 0; i < major; i++) { int l = len ? len[i] : (int)(start[i + 1] - start[i]); length_[i] = l; start_[i + 1] = start_[i] + l; memcpy(element_ + start_[i], elem + start[i], l * sizeof(double)); memcpy(index_ + start_[i], ind + start[i], l * sizeof(int)); }
}
CoinPackedMatrix::CoinPackedMatrix(const bool co, const int minor, const int major, const CoinBigIndex n, const double *e, const int *ix, const CoinBigIndex *st, const int *len) { gutsOfCopyOf(co, minor, major, n, e, ix, st, len, 0, 0); }
CoinPackedMatrix::CoinPackedMatrix(const CoinPackedMatrix &r) { gutsOfCopyOf(r.colOrdered_, r.minorDim_, r.majorDim_, r.size_, r.element_, r.index_, r.start_, r.length_, r.extraMajor_, r.extraGap_); }
CoinPackedMatrix &CoinPackedMatrix::operator=(const CoinPackedMatrix &r) { if (this != &r) { pmFree(this); gutsOfCopyOf(r.colOrdered_, r.minorDim_, r.majorDim_, r.size_, r.element_, r.index_, r.start_, r.length_, r.extraMajor_, r.extraGap_); } return *this; }
void CoinPackedMatrix::copyOf(const CoinPackedMatrix &r) { *this = r; }
CoinPackedMatrix::~CoinPackedMatrix() { pmFree(this); }
void CoinPackedMatrix::assignMatrix(const bool co, const int minor, const int major, const CoinBigIndex n, double *&e, int *&ix, CoinBigIndex *&st, int *&len, const int mm, const CoinBigIndex ms) {
  pmFree(this); colOrdered_ = co; element_ = e; index_ = ix; start_ = st; majorDim_ = major; minorDim_ = minor; size_ = n; maxMajorDim_ = mm != -1 ? mm : major; maxSize_ = ms != -1 ? ms : n; extraGap_ = 0; extraMajor_ = 0; if (!len) { len = new int[major + 1]; for (int i = 0; i < major; i++) len[i] = st[i + 1] - st[i]; } length_ = len; e = NULL; ix = NULL; st = NULL; len = NULL;
}
void CoinPackedMatrix::reverseOrderedCopyOf(const CoinPackedMatrix &r) {
  if (this == &r) { reverseOrdering(); return; }
  pmFree(this); colOrdered_ = !r.colOrdered_; majorDim_ = r.minorDim_; minorDim_ = r.majorDim_; size_ = r.size_; maxSize_ = size_; maxMajorDim_ = majorDim_;
  length_ = new int[majorDim_ + 1]; start_ = new CoinBigIndex[majorDim_ + 1]; element_ = size_ ? new double[size_] : NULL; index_ = size_ ? new int[size_] : NULL;
  for (int i = 0; i < majorDim_; i++) length_[i] = 0;
  for (int i = 0; i < r.majorDim_; i++) for (CoinBigIndex k = r.start_[i]; k < r.start_[i] + r.length_[i]; k++) length_[r.index_[k]]++;
  start_[0] = 0; for (int i = 0; i < majorDim_; i++) { start_[i + 1] = start_[i] + length_[i]; length_[i] = 0; }
  for (int i = 0; i < r.majorDim_; i++) for (CoinBigIndex k = r.start_[i]; k < r.start_[i] + r.length_[i]; k++) { int j = r.index_[k]; CoinBigIndex p = start_[j] + length_[j]++; element_[p] = r.element_[k]; index_[p] = i; }
}
void CoinPackedMatrix::reverseOrdering() { CoinPackedMatrix t(*this); reverseOrderedCopyOf(t); }
void CoinPackedMatrix::setExtraGap(const double g) { if (g < 0) throw CoinError("negative new extra gap", "setExtraGap", "CoinPackedMatrix"); extraGap_ = g; }
void CoinPackedMatrix::setExtraMajor(const double g) { if (g < 0) throw CoinError("negative new extra major", "setExtraMajor", "CoinPackedMatrix"); extraMajor_ = g; }
void CoinPackedMatrix::removeGaps(double v) {
  CoinBigIndex q = 0;
  for (int i = 0; i < majorDim_; i++) { CoinBigIndex s = start_[i], e = s + length_[i], q0 = q; start_[i] = q; for (CoinBigIndex k = s; k < e; k++) { if (v >= 0.0 && fabs(element_[k]) <= v) continue; element_[q] = element_[k]; index_[q] = index_[k]; q++; } length_[i] = q - q0; }
  if (start_) start_[majorDim_] = q; size_ = q;
}
void CoinPackedMatrix::orderMatrix() { for (int i = 0; i < majorDim_; i++) { CoinBigIndex s = start_[i], e = s + length_[i]; for (CoinBigIndex a = s + 1; a < e; a++) for (CoinBigIndex b = a; b > s && index_[b - 1] > index_[b]; b--) { int t = index_[b]; index_[b] = index_[b - 1]; index_[b - 1] = t; double d = element_[b]; element_[b] = element_[b - 1]; element_[b - 1] = d; } } }
void CoinPackedMatrix::submatrixOf(const CoinPackedMatrix &m, const int n, const int *which) {
  for (int i = 0; i < n; i++) { if (which[i] < 0 || which[i] >= m.majorDim_) throw CoinError("bad index", "submatrixOf", "CoinPackedMatrix"); for (int j = 0; j < i; j++) if (which[i] == which[j]) throw CoinError("duplicate index", "submatrixOf", "CoinPackedMatrix"); }
  int *srt = n ? new int[n] : NULL; for (int i = 0; i < n; i++) srt[i] = which[i]; for (int a = 1; a < n; a++) for (int b = a; b > 0 && srt[b - 1] > srt[b]; b--) { int t = srt[b]; srt[b] = srt[b - 1]; srt[b - 1] = t; }
  bool co = m.colOrdered_; int minor = m.minorDim_; int tot = 0; for (int i = 0; i < n; i++) tot += m.length_[srt[i]];
  double *e = new double[tot + 1]; int *ix = new int[tot + 1]; CoinBigIndex *st = new CoinBigIndex[n + 1]; st[0] = 0;
  for (int i = 0; i < n; i++) { int l = m.length_[srt[i]]; memcpy(e + st[i], m.element_ + m.start_[srt[i]], l * sizeof(double)); memcpy(ix + st[i], m.index_ + m.start_[srt[i]], l * sizeof(int)); st[i + 1] = st[i] + l; }
  pmFree(this); gutsOfCopyOf(co, minor, n, tot, e, ix, st, NULL, extraMajor_, extraGap_); delete[] e; delete[] ix; delete[] st; delete[] srt;
}
CoinPackedMatrix::CoinPackedMatrix(const CoinPackedMatrix &w, int nr, const int *wr, int nc, const int *wc) {
  int nMaj = w.colOrdered_ ? nc : nr, nMin = w.colOrdered_ ? nr : nc; const int *wM = w.colOrdered_ ? wc : wr, *wm = w.colOrdered_ ? wr : wc;
  int *pos = new int[w.minorDim_ + 1]; for (int i = 0; i < w.minorDim_; i++) pos[i] = -1; for (int i = 0; i < nMin; i++) pos[wm[i]] = i;
  int tot = 0; for (int i = 0; i < nMaj; i++) tot += w.length_[wM[i]]; double *e = new double[tot + 1]; int *ix = new int[tot + 1]; CoinBigIndex *st = new CoinBigIndex[nMaj + 1]; st[0] = 0; int q = 0;
  for (int i = 0; i < nMaj; i++) { CoinBigIndex s = w.start_[wM[i]]; for (CoinBigIndex k = s; k < s + w.length_[wM[i]]; k++) if (pos[w.index_[k]] >= 0) { e[q] = w.element_[k]; ix[q] = pos[w.index_[k]]; q++; } st[i + 1] = q; }
  gutsOfCopyOf(w.colOrdered_, nMin, nMaj, q, e, ix, st, NULL, 0, 0); delete[] e; delete[] ix; delete[] st; delete[] pos;
}
CoinPackedMatrix::CoinPackedMatrix(const bool co, const double em, const double eg) : colOrdered_(co), extraGap_(eg), extraMajor_(em), element_(0), index_(0), length_(0), majorDim_(0), minorDim_(0), size_(0), maxMajorDim_(0), maxSize_(0) { start_ = new CoinBigIndex[1]; start_[0] = 0; }
CoinPackedMatrix::CoinPackedMatrix(const CoinPackedMatrix &r, int, int, bool rev) {
  if (!rev) gutsOfCopyOf(r.colOrdered_, r.minorDim_, r.majorDim_, r.size_, r.element_, r.index_, r.start_, r.length_, 0, 0);
  else { extraGap_ = 0; extraMajor_ = 0; element_ = NULL; index_ = NULL; length_ = NULL; start_ = NULL; reverseOrderedCopyOf(r); }
}
void CoinPackedMatrix::submatrixOfWithDuplicates(const CoinPackedMatrix &m, const int n, const int *which) {
  bool co = m.colOrdered_; int minor = m.minorDim_; int tot = 0; for (int i = 0; i < n; i++) { if (which[i] < 0 || which[i] >= m.majorDim_) throw CoinError("bad index", "submatrixOfWithDuplicates", "CoinPackedMatrix"); tot += m.length_[which[i]]; }
  double *e = new double[tot + 1]; int *ix = new int[tot + 1]; CoinBigIndex *st = new CoinBigIndex[n + 1]; st[0] = 0;
  for (int i = 0; i < n; i++) { int l = m.length_[which[i]]; memcpy(e + st[i], m.element_ + m.start_[which[i]], l * sizeof(double)); memcpy(ix + st[i], m.index_ + m.start_[which[i]], l * sizeof(int)); st[i + 1] = st[i] + l; }
  pmFree(this); gutsOfCopyOf(co, minor, n, tot, e, ix, st, NULL, extraMajor_, extraGap_); delete[] e; delete[] ix; delete[] st;
}
void CoinPackedMatrix::timesMajor(const double *x, double *y) const { for (int i = 0; i < minorDim_; i++) y[i] = 0.0; for (int i = majorDim_ - 1; i >= 0; --i) { double xi = x[i]; if (xi != 0.0) for (CoinBigIndex k = start_[i]; k < start_[i] + length_[i]; k++) y[index_[k]] += xi * element_[k]; } }
void CoinPackedMatrix::timesMinor(const double *x, double *y) const { for (int i = 0; i < majorDim_; i++) { double v = 0.0; for (CoinBigIndex k = start_[i]; k < start_[i] + length_[i]; k++) v += x[index_[k]] * element_[k]; y[i] = v; } }
void CoinPackedMatrix::times(const double *x, double *y) const { if (colOrdered_) timesMajor(x, y); else timesMinor(x, y); }
void CoinPackedMatrix::transposeTimes(const double *x, double *y) const { if (colOrdered_) timesMinor(x, y); else timesMajor(x, y); }

// ---------------------------------------------------------------- cuts
OsiCut::OsiCut() : effectiveness_(0.), globallyValid_(0) {}
OsiCut::OsiCut(const OsiCut &s) : effectiveness_(s.effectiveness_), globallyValid_(s.globallyValid_) {}
OsiCut &OsiCut::operator=(const OsiCut &r) { if (this != &r) { effectiveness_ = r.effectiveness_; globallyValid_ = r.globallyValid_; } return *this; }
OsiCut::~OsiCut() {}
OsiRowCut::OsiRowCut() : OsiCut(), row_(), lb_(-COIN_DBL_MAX), ub_(COIN_DBL_MAX) {}
OsiRowCut::OsiRowCut(const OsiRowCut &s) : OsiCut(s), row_(s.row_), lb_(s.lb_), ub_(s.ub_) {}
OsiRowCut &OsiRowCut::operator=(const OsiRowCut &r) { if (this != &r) { OsiCut::operator=(r); row_ = r.row_; lb_ = r.lb_; ub_ = r.ub_; } return *this; }
OsiRowCut *OsiRowCut::clone() const { return new OsiRowCut(*this); }
OsiRowCut::~OsiRowCut() {}
double OsiRowCut::lb() const { return lb_; }
double OsiRowCut::ub() const { return ub_; }
void OsiRowCut::setLb(double v) { lb_ = v; }
void OsiRowCut::setUb(double v) { ub_ = v; }
void OsiRowCut::setRow(int n, const int *i, const double *e, bool t) { row_.setVector(n, i, e, t); }
void OsiRowCut::setRow(const CoinPackedVector &v) { row_ = v; }
const CoinPackedVector &OsiRowCut::row() const { return row_; }
CoinPackedVector &OsiRowCut::mutableRow() { return row_; }
bool OsiRowCut::operator==(const OsiRowCut &r) const { if (OsiCut::operator!=(r)) return false; if (row() != r.row()) return false; return lb() == r.lb() && ub() == r.ub(); }
bool OsiRowCut::operator!=(const OsiRowCut &r) const { return !(*this == r); }
bool OsiRowCut::consistent() const { row_.duplicateIndex("consistent", "OsiRowCut"); return row_.getMinIndex() >= 0; }
bool OsiRowCut::consistent(const OsiSolverInterface &s) const { return row_.getMaxIndex() < s.getNumCols(); }
bool OsiRowCut::infeasible(const OsiSolverInterface &) const { return lb() > ub(); }
void OsiRowCut::print() const {}
double OsiRowCut::violated(const double *x) const { double s = 0.0; const int *c = row_.getIndices(); const double *e = row_.getElements(); for (int i = 0; i < row_.getNumElements(); i++) s += x[c[i]] * e[i]; if (s > ub_) return s - ub_; else if (s < lb_) return lb_ - s; return 0.0; }
OsiColCut::OsiColCut() : OsiCut(), lbs_(), ubs_() {}
OsiColCut::OsiColCut(const OsiColCut &s) : OsiCut(s), lbs_(s.lbs_), ubs_(s.ubs_) {}
OsiColCut &OsiColCut::operator=(const OsiColCut &r) { if (this != &r) { OsiCut::operator=(r); lbs_ = r.lbs_; ubs_ = r.ubs_; } return *this; }
OsiColCut *OsiColCut::clone() const { return new OsiColCut(*this); }
OsiColCut::~OsiColCut() {}
void OsiColCut::print() const {}
double OsiColCut::violated(const double *x) const { double v = 0.0; for (int i = 0; i < lbs_.getNumElements(); i++) { double d = lbs_.getElements()[i] - x[lbs_.getIndices()[i]]; if (d > v) v = d; } for (int i = 0; i < ubs_.getNumElements(); i++) { double d = x[ubs_.getIndices()[i]] - ubs_.getElements()[i]; if (d > v) v = d; } return v; }
OsiCuts::OsiCuts() {}
OsiCuts::OsiCuts(const OsiCuts &s) { gutsOfCopy(s); }
OsiCuts &OsiCuts::operator=(const OsiCuts &r) { if (this != &r) { gutsOfDestructor(); gutsOfCopy(r); } return *this; }
OsiCuts::~OsiCuts() { gutsOfDestructor(); }
void OsiCuts::gutsOfCopy(const OsiCuts &s) { for (int i = 0; i < s.sizeRowCuts(); i++) insert(s.rowCut(i)); for (int i = 0; i < s.sizeColCuts(); i++) insert(s.colCut(i)); }
void OsiCuts::gutsOfDestructor() { for (size_t i = 0; i < rowCutPtrs_.size(); i++) delete rowCutPtrs_[i]; for (size_t i = 0; i < colCutPtrs_.size(); i++) delete colCutPtrs_[i]; rowCutPtrs_.clear(); colCutPtrs_.clear(); }
template <class EQ> static void ins(OsiCuts *cs, OsiRowCut &rc, const EQ &same) {
  double newLb = rc.lb(), newUb = rc.ub(); CoinPackedVector vec = rc.row(); int n = vec.getNumElements(); int *ix = vec.getIndices(); double *e = vec.getElements();
  { bool ok = true; for (int i = 1; i < n; i++) if (ix[i - 1] > ix[i]) ok = false; if (!ok) for (int a = 1; a < n; a++) for (int b = a; b > 0 && ix[b - 1] > ix[b]; b--) { int t = ix[b]; ix[b] = ix[b - 1]; ix[b - 1] = t; double d = e[b]; e[b] = e[b - 1]; e[b - 1] = d; } }
  bool notDup = true; int num = cs->sizeRowCuts();
  for (int i = 0; i < num; i++) {
    const OsiRowCut *c = cs->rowCutPtr(i); if (c->row().getNumElements() != n) continue; if (!same(c->lb(), newLb)) continue; if (!same(c->ub(), newUb)) continue;
    const int *jx = c->row().getIndices(); const double *f = c->row().getElements(); int j; for (j = 0; j < n; j++) { if (jx[j] != ix[j]) break; if (!same(f[j], e[j])) break; } if (j == n) { notDup = false; break; }
  }
  if (notDup) { OsiRowCut *nc = new OsiRowCut(); nc->setLb(newLb); nc->setUb(newUb); nc->setRow(vec); nc->setGloballyValid(rc.globallyValid()); nc->setEffectiveness(rc.effectiveness()); cs->rowCutPtrs_.push_back(nc); }
}
void OsiCuts::insertIfNotDuplicate(OsiRowCut &rc, CoinAbsFltEq eq) { ins(this, rc, eq); }
void OsiCuts::insertIfNotDuplicate(OsiRowCut &rc, CoinRelFltEq eq) { ins(this, rc, eq); }

OsiCuts::iterator::iterator(OsiCuts &cuts) : cuts_(cuts), rowCutIndex_(-1), colCutIndex_(-1), cutP_(NULL) { this->operator++(); }
OsiCuts::iterator::iterator(const OsiCuts::iterator &s) : cuts_(s.cuts_), rowCutIndex_(s.rowCutIndex_), colCutIndex_(s.colCutIndex_), cutP_(s.cutP_) {}
OsiCuts::iterator &OsiCuts::iterator::operator=(const OsiCuts::iterator &r) { cuts_ = r.cuts_; rowCutIndex_ = r.rowCutIndex_; colCutIndex_ = r.colCutIndex_; cutP_ = r.cutP_; return *this; }
OsiCuts::iterator::~iterator() {}
OsiCuts::iterator OsiCuts::iterator::begin() { rowCutIndex_ = -1; colCutIndex_ = -1; this->operator++(); return *this; }
OsiCuts::iterator OsiCuts::iterator::end() { rowCutIndex_ = cuts_.sizeRowCuts(); colCutIndex_ = cuts_.sizeColCuts() - 1; cutP_ = NULL; return *this; }
OsiCuts::iterator OsiCuts::iterator::operator++() {
  cutP_ = NULL; int nr = cuts_.sizeRowCuts(), nc = cuts_.sizeColCuts();
  if (rowCutIndex_ + 1 < nr) { if (colCutIndex_ + 1 < nc) { double re = cuts_.rowCutPtr(rowCutIndex_ + 1)->effectiveness(), ce = cuts_.colCutPtr(colCutIndex_ + 1)->effectiveness(); if (re > ce) { rowCutIndex_++; cutP_ = cuts_.rowCutPtr(rowCutIndex_); } else { colCutIndex_++; cutP_ = cuts_.colCutPtr(colCutIndex_); } } else { rowCutIndex_++; cutP_ = cuts_.rowCutPtr(rowCutIndex_); } }
  else { colCutIndex_++; if (colCutIndex_ < nc) cutP_ = cuts_.colCutPtr(colCutIndex_); else { rowCutIndex_ = nr; colCutIndex_ = nc - 1; cutP_ = NULL; } }
  return *this;
}
OsiCuts::const_iterator::const_iterator(const OsiCuts &cuts) : cutsPtr_(&cuts), rowCutIndex_(-1), colCutIndex_(-1), cutP_(NULL) { this->operator++(); }
OsiCuts::const_iterator::const_iterator(const OsiCuts::const_iterator &s) : cutsPtr_(s.cutsPtr_), rowCutIndex_(s.rowCutIndex_), colCutIndex_(s.colCutIndex_), cutP_(s.cutP_) {}
OsiCuts::const_iterator &OsiCuts::const_iterator::operator=(const OsiCuts::const_iterator &r) { cutsPtr_ = r.cutsPtr_; rowCutIndex_ = r.rowCutIndex_; colCutIndex_ = r.colCutIndex_; cutP_ = r.cutP_; return *this; }
OsiCuts::const_iterator::~const_iterator() {}
OsiCuts::const_iterator OsiCuts::const_iterator::begin() { rowCutIndex_ = -1; colCutIndex_ = -1; this->operator++(); return *this; }
OsiCuts::const_iterator OsiCuts::const_iterator::end() { rowCutIndex_ = cutsPtr_->sizeRowCuts(); colCutIndex_ = cutsPtr_->sizeColCuts() - 1; cutP_ = NULL; return *this; }
OsiCuts::const_iterator OsiCuts::const_iterator::operator++() {
  cutP_ = NULL; int nr = cutsPtr_->sizeRowCuts(), nc = cutsPtr_->sizeColCuts();
  if (rowCutIndex_ + 1 < nr) { if (colCutIndex_ + 1 < nc) { double re = cutsPtr_->rowCutPtr(rowCutIndex_ + 1)->effectiveness(), ce = cutsPtr_->colCutPtr(colCutIndex_ + 1)->effectiveness(); if (re > ce) { rowCutIndex_++; cutP_ = cutsPtr_->rowCutPtr(rowCutIndex_); } else { colCutIndex_++; cutP_ = cutsPtr_->colCutPtr(colCutIndex_); } } else { rowCutIndex_++; cutP_ = cutsPtr_->rowCutPtr(rowCutIndex_); } }
  else { colCutIndex_++; if (colCutIndex_ < nc) cutP_ = cutsPtr_->colCutPtr(colCutIndex_); else { rowCutIndex_ = nr; colCutIndex_ = nc - 1; cutP_ = NULL; } }
  return *this;
}

// ---------------------------------------------------------------- messages (text is not the subject)
CoinOneMessage::CoinOneMessage() : externalNumber_(-1), detail_(0), severity_('I') { message_[0] = 0; }
CoinOneMessage::CoinOneMessage(int e, char d, const char *) : externalNumber_(e), detail_(d), severity_('I') { message_[0] = 0; }
CoinOneMessage::CoinOneMessage(const CoinOneMessage &r) : externalNumber_(r.externalNumber_), detail_(r.detail_), severity_(r.severity_) { message_[0] = 0; }
CoinOneMessage::~CoinOneMessage() {}
CoinMessages::CoinMessages(int n) : numberMessages_(n), language_(us_en), class_(1), lengthMessages_(-1), message_(NULL) { source_[0] = 0; }
CoinMessages::~CoinMessages() {}
CoinMessages::CoinMessages(const CoinMessages &r) : numberMessages_(r.numberMessages_), language_(r.language_), class_(r.class_), lengthMessages_(-1), message_(NULL) { source_[0] = 0; }
CoinMessages &CoinMessages::operator=(const CoinMessages &) { return *this; }
void CoinMessages::addMessage(int, const CoinOneMessage &) {}
void CoinMessages::toCompact() {}

// ---------------------------------------------------------------- OsiSolverInterface base
OsiSolverInterface::OsiSolverInterface() : rowCutDebugger_(NULL), handler_(NULL), defaultHandler_(true), numberIntegers_(-1), numberObjects_(0), object_(NULL), columnType_(NULL), appDataEtc_(NULL), ws_(NULL) {
  intParam_[OsiMaxNumIteration] = 9999999; intParam_[OsiMaxNumIterationHotStart] = 9999999; intParam_[OsiNameDiscipline] = 0;
  dblParam_[OsiDualObjectiveLimit] = COIN_DBL_MAX; dblParam_[OsiPrimalObjectiveLimit] = -COIN_DBL_MAX; dblParam_[OsiDualTolerance] = 1e-6; dblParam_[OsiPrimalTolerance] = 1e-6; dblParam_[OsiObjOffset] = 0.0;
  for (int i = 0; i < OsiLastHintParam; i++) { hintParam_[i] = false; hintStrength_[i] = OsiHintIgnore; }
}
OsiSolverInterface::OsiSolverInterface(const OsiSolverInterface &) : rowCutDebugger_(NULL), handler_(NULL), defaultHandler_(true), numberIntegers_(-1), numberObjects_(0), object_(NULL), columnType_(NULL), appDataEtc_(NULL), ws_(NULL) {
  intParam_[OsiMaxNumIteration] = 9999999; intParam_[OsiMaxNumIterationHotStart] = 9999999; intParam_[OsiNameDiscipline] = 0;
  dblParam_[OsiDualObjectiveLimit] = COIN_DBL_MAX; dblParam_[OsiPrimalObjectiveLimit] = -COIN_DBL_MAX; dblParam_[OsiDualTolerance] = 1e-6; dblParam_[OsiPrimalTolerance] = 1e-6; dblParam_[OsiObjOffset] = 0.0;
  for (int i = 0; i < OsiLastHintParam; i++) { hintParam_[i] = false; hintStrength_[i] = OsiHintIgnore; }
}
OsiSolverInterface::~OsiSolverInterface() {}
const OsiRowCutDebugger *OsiSolverInterface::getRowCutDebugger() const { return NULL; }
OsiRowCutDebugger *OsiSolverInterface::getRowCutDebuggerAlways() const { return NULL; }

// members of std::string used on exception paths
template class std::basic_string<char>;

// ---------------------------------------------------------------- CoinIndexedVector (dense values plus a list of indices)
CoinIndexedVector::CoinIndexedVector() : indices_(NULL), elements_(NULL), nElements_(0), capacity_(0), offset_(0), packedMode_(false) {}
CoinIndexedVector::CoinIndexedVector(int n) : indices_(NULL), elements_(NULL), nElements_(0), capacity_(0), offset_(0), packedMode_(false) { reserve(n); }
CoinIndexedVector::~CoinIndexedVector() { delete[] indices_; delete[] elements_; }
void CoinIndexedVector::reserve(int n) {
  if (n <= capacity_) return;
  int *i2 = new int[n]; double *e2 = new double[n]; for (int k = 0; k < n; k++) { i2[k] = k < nElements_ ? indices_[k] : 0; e2[k] = k < capacity_ ? elements_[k] : 0.0; }
  delete[] indices_; delete[] elements_; indices_ = i2; elements_ = e2; capacity_ = n;
}
void CoinIndexedVector::clear() {
  if (!packedMode_) { if (3 * nElements_ < capacity_) { for (int k = 0; k < nElements_; k++) elements_[indices_[k]] = 0.0; } else for (int k = 0; k < capacity_; k++) elements_[k] = 0.0; }
  else for (int k = 0; k < nElements_; k++) elements_[k] = 0.0;
  nElements_ = 0; packedMode_ = false;
}
void CoinIndexedVector::insert(int i, double v) {
  if (i < 0) throw CoinError("index < 0", "insert", "CoinIndexedVector");
  if (i >= capacity_) reserve(i + 1);
  if (elements_[i]) throw CoinError("Index already exists", "insert", "CoinIndexedVector");
  indices_[nElements_++] = i; elements_[i] = v;
}
void CoinIndexedVector::add(int i, double v) {
  if (i < 0) throw CoinError("index < 0", "add", "CoinIndexedVector");
  if (i >= capacity_) reserve(i + 1);
  if (elements_[i]) { v += elements_[i]; elements_[i] = fabs(v) >= COIN_INDEXED_TINY_ELEMENT ? v : COIN_INDEXED_REALLY_TINY_ELEMENT; }
  else if (fabs(v) >= COIN_INDEXED_TINY_ELEMENT) { indices_[nElements_++] = i; elements_[i] = v; }
}
CoinIndexedVector &CoinIndexedVector::operator=(const CoinPackedVectorBase &r) {
  clear(); const int *ix = r.getIndices(); const double *e = r.getElements(); for (int k = 0; k < r.getNumElements(); k++) add(ix[k], e[k]); return *this;
}
CoinIndexedVector &CoinIndexedVector::operator=(const CoinIndexedVector &r) {
  if (this == &r) return *this;
  clear(); reserve(r.capacity_); if (r.packedMode_) { packedMode_ = true; for (int k = 0; k < r.nElements_; k++) { indices_[k] = r.indices_[k]; elements_[k] = r.elements_[k]; } nElements_ = r.nElements_; } else for (int k = 0; k < r.nElements_; k++) add(r.indices_[k], r.elements_[r.indices_[k]]);
  return *this;
}
void CoinIndexedVector::copy(const CoinIndexedVector &r, double m) {
  clear(); reserve(r.capacity_); packedMode_ = r.packedMode_;
  for (int k = 0; k < r.nElements_; k++) { int i = r.indices_[k], q = packedMode_ ? k : i; double v = r.elements_[q] * m; if (fabs(v) < COIN_INDEXED_TINY_ELEMENT) v = COIN_INDEXED_REALLY_TINY_ELEMENT; elements_[q] = v; indices_[nElements_++] = i; }
}
void CoinIndexedVector::operator*=(double m) { for (int k = 0; k < nElements_; k++) { double v = elements_[indices_[k]] * m; elements_[indices_[k]] = fabs(v) >= COIN_INDEXED_TINY_ELEMENT ? v : COIN_INDEXED_REALLY_TINY_ELEMENT; } }
void CoinIndexedVector::setElement(int k, double v) { if (k >= nElements_) throw CoinError("index >= size()", "setElement", "CoinIndexedVector"); if (k < 0) throw CoinError("index < 0", "setElement", "CoinIndexedVector"); elements_[indices_[k]] = v; }
void CoinIndexedVector::sortIncrElement() { for (int a = 1; a < nElements_; a++) for (int b = a; b > 0 && elements_[indices_[b - 1]] > elements_[indices_[b]]; b--) { int t = indices_[b]; indices_[b] = indices_[b - 1]; indices_[b - 1] = t; } }
double &CoinIndexedVector::operator[](int i) const { if (i >= capacity_) throw CoinError("index >= capacity()", "[]", "CoinIndexedVector"); if (i < 0) throw CoinError("index < 0", "[]", "CoinIndexedVector"); return elements_[i]; }
CoinIndexedVector::CoinIndexedVector(const CoinIndexedVector *r) : indices_(NULL), elements_(NULL), nElements_(0), capacity_(0), offset_(0), packedMode_(false) { *this = *r; }
CoinIndexedVector::CoinIndexedVector(const CoinIndexedVector &r) : indices_(NULL), elements_(NULL), nElements_(0), capacity_(0), offset_(0), packedMode_(false) { *this = r; }
// sum and difference: elements that become tiny are dropped
static void ivAddTo(CoinIndexedVector &t, const CoinIndexedVector &o, double sg) {
  t.reserve(o.capacity()); const int *ix = o.getIndices(); const double *e = o.denseVector(); int *ti = t.getIndices(); double *te = t.denseVector(); int n = t.getNumElements();
  for (int k = 0; k < o.getNumElements(); k++) { int i = ix[k]; double v = sg * e[i]; if (te[i]) te[i] += v; else if (fabs(v) >= COIN_INDEXED_TINY_ELEMENT) { te[i] = v; ti[n++] = i; } }
  int q = 0; for (int k = 0; k < n; k++) { int i = ti[k]; if (fabs(te[i]) >= COIN_INDEXED_TINY_ELEMENT) ti[q++] = i; else te[i] = 0.0; } t.setNumElements(q);
}
CoinIndexedVector CoinIndexedVector::operator-(const CoinIndexedVector &o) { CoinIndexedVector t(*this); ivAddTo(t, o, -1.0); return t; }
CoinIndexedVector CoinIndexedVector::operator+(const CoinIndexedVector &o) { CoinIndexedVector t(*this); ivAddTo(t, o, 1.0); return t; }
