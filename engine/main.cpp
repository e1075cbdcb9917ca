// vsym: a symbolic executor for LLVM bitcode (C++ code compiled by clang), deciding paths and
// assertions with z3.  Integers are mathematical integers with explicit wrap where the interval
// analysis cannot exclude overflow; doubles are exact rationals plus a bounded rounding-error
// variable at every operation the dyadic-granularity analysis cannot show to be exact.
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstdio>
#include <set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <random>
using namespace llvm;

// ------------------------------------------------------------------ options
struct Opts { int workers = 8; double timeLimit = 100; long maxPaths = 1000000000; unsigned rlimit = 3000000; unsigned long maxSteps = 30000000; double runWall = 60; int maxConcretize = 4096;
  std::string replay, out, scratch = "/tmp"; int samples = 0; unsigned seed = 1; bool verbose = false; int order = 0; bool stopOnViolation = true; std::vector<std::string> trustFail; std::string single; } O;

// ------------------------------------------------------------------ memory
static const uint64_t ARENA = 0x200000000000ull; static const uint64_t ARENA_SZ = 1ull << 30; // 1 GB virtual
static const uint64_t STACK_OFF = 768ull << 20; static uint8_t *FL; // flag byte per byte
// one large zeroed block (calloc of megabytes) is served from a region that stays initialised between paths
static const uint64_t BIG_SZ = 128ull << 20, BIG_HI = ARENA + ARENA_SZ - 65536, BIG_LO = BIG_HI - BIG_SZ; static bool bigReady = false;
enum { F_NONE = 0, F_INIT = 1, F_UNINIT = 2, F_SYM = 3, F_CONT = 4 };
static const uint8_t PATTERN = 0xCD;
static uint64_t globalsEnd; static std::vector<uint8_t> globImg, globFl;
static const uint64_t FBASE = 0x100000000000ull; // fake function addresses

// ------------------------------------------------------------------ values
enum SK { S_DBL, S_INT, S_BOOL, S_COMP };
struct Sym; struct Piece { int off, size; Sym *s; uint64_t u; };
struct Sym { SK k; int w; const Lin *l; BoolE *b; std::vector<Piece> *p; };
struct Val { uint64_t u; Sym *s; };

// ------------------------------------------------------------------ decoded program
struct Leaf { Type *t; uint32_t off; uint8_t size; uint8_t bits; uint8_t kind; }; // kind 0 int,1 double,2 float,3 ptr
struct DFunc; struct Run;
typedef std::function<void(Run &, Val *args, int n, Val *ret)> ExtFn;
struct SwCase { uint64_t v; int b; };
struct PhiEdge { std::vector<std::pair<int, int>> moves; }; // dst, operand(leaf flattened)
struct DInst {
  unsigned op; unsigned sub = 0; int dst = -1; int nl = 1; uint8_t bits = 0, sbits = 0, kind = 0, skind = 0; std::vector<int> o; std::vector<uint8_t> anl; // operand bases, arg leaves
  DFunc *callee = nullptr; int b0 = -1, b1 = -1; int64_t coff = 0; std::vector<std::pair<int, int64_t>> idx; std::vector<SwCase> sw; std::vector<Leaf> lv; std::vector<int> lv2; const Instruction *I = nullptr; unsigned iid = 0; bool isInvoke = false; std::vector<std::pair<int, uint64_t>> byval;
};
struct DBlock { std::vector<DInst> in; std::map<int, PhiEdge> phi; const BasicBlock *bb; uint32_t gid; };
struct DFunc { const Function *F; std::string name; uint64_t addr; int id; std::vector<DBlock> bl; int nslots = 0; bool decoded = false; ExtFn *ext = nullptr; std::vector<std::pair<int, int>> args; std::vector<Val> consts; bool fromRepo = false; unsigned long calls = 0; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL; static std::vector<DFunc *> funcs; static std::unordered_map<const Function *, DFunc *> fmap; static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::unordered_map<std::string, ExtFn> exts; static uint32_t nBlocks = 0; static std::vector<uint8_t> cover; static std::vector<std::pair<DFunc *, int>> blockIdx;
static uint64_t siVt, classVt, vmiVt;

static void leavesOf(Type *t, uint32_t off, std::vector<Leaf> &v) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), v); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * es, v); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), off + i * es, v); return; }
  if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return;
  Leaf l; l.t = t; l.off = off; l.size = DL->getTypeStoreSize(t); l.bits = 64; l.kind = 0;
  if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); if (b > 64) { l.bits = 255; } else l.bits = b; } else if (t->isDoubleTy()) l.kind = 1; else if (t->isFloatTy()) { l.kind = 2; l.bits = 32; } else if (t->isPointerTy()) l.kind = 3; else { l.bits = 255; }
  v.push_back(l);
}
static int nLeaves(Type *t) { std::vector<Leaf> v; leavesOf(t, 0, v); return v.size(); }

static uint64_t constAddr(const Constant *c);
static uint64_t constScalar(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().getLoBits(64).getZExtValue(); return ci->getZExtValue(); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { return cf->getValueAPF().bitcastToAPInt().getLoBits(64).getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  return constAddr(c);
}
static uint64_t constAddr(const Constant *c) {
  if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { fprintf(stderr, "no global %s\n", g->getName().str().c_str()); abort(); } return it->second; }
  if (auto *f = dyn_cast<Function>(c)) return fmap[f]->addr;
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto *gep = cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL, off)) abort(); return constScalar(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
      case Instruction::Trunc: { unsigned b = ce->getType()->getIntegerBitWidth(); return constScalar(ce->getOperand(0)) & (b >= 64 ? ~0ull : ((1ull << b) - 1)); }
      case Instruction::Sub: return constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1));
      case Instruction::Add: return constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1));
      case Instruction::ICmp: { uint64_t a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); return cast<ConstantExpr>(ce)->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; }
      default: break;
    }
  }
  if (auto *dl = dyn_cast<DSOLocalEquivalent>(c)) return constScalar(dl->getGlobalValue());
  if (auto *nc = dyn_cast<NoCFIValue>(c)) return constScalar(nc->getGlobalValue());
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); return 0;
}
static void flattenConst(const Constant *c, std::vector<uint64_t> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) flattenConst(c->getAggregateElement(i), out); return;
  }
  out.push_back(constScalar(c));
}
static void initGlobal(const Constant *c, uint64_t addr) {
  Type *t = c->getType(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  std::vector<Leaf> lv; leavesOf(t, 0, lv); std::vector<uint64_t> vals; flattenConst(c, vals);
  for (size_t i = 0; i < lv.size(); i++) memcpy((void *)(addr + lv[i].off), &vals[i], std::min<int>(8, lv[i].size));
}
static void setupModule(const std::string &file) {
  SMDiagnostic err; M = parseIRFile(file, err, LC); if (!M) { err.print("vsym", errs()); exit(2); } DL = &M->getDataLayout();
  int id = 0; for (auto &F : *M) { auto *d = new DFunc; d->F = &F; d->name = F.getName().str(); d->id = id; d->addr = FBASE + 16 * id; id++; funcs.push_back(d); fmap[&F] = d; auto e = exts.find(d->name); if (e != exts.end()) d->ext = &e->second;
    if (auto *sp = F.getSubprogram()) { std::string fn = sp->getFilename().str(); std::string dir = sp->getDirectory().str(); if (fn.find("/src/Cgl") != std::string::npos) d->fromRepo = true; } }
  uint64_t p = ARENA + 4096;
  for (auto &G : M->globals()) { uint64_t sz = DL->getTypeAllocSize(G.getValueType()); if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 512); uint64_t al = std::max<uint64_t>(16, G.getAlign().valueOrOne().value()); p = (p + al - 1) / al * al; gaddr[&G] = p; p += sz + 16; }
  globalsEnd = (p + 4095) / 4096 * 4096;
  for (auto &G : M->globals()) { uint64_t a = gaddr[&G], sz = DL->getTypeAllocSize(G.getValueType()); if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 512); memset((void *)a, 0, sz); memset(FL + (a - ARENA), F_INIT, sz); }
  for (auto &G : M->globals()) if (G.hasInitializer()) initGlobal(G.getInitializer(), gaddr[&G]);
  auto vt = [&](const char *n) -> uint64_t { auto *g = M->getGlobalVariable(n, true); return g ? gaddr[g] + 16 : 1; };
  classVt = vt("_ZTVN10__cxxabiv117__class_type_infoE"); siVt = vt("_ZTVN10__cxxabiv120__si_class_type_infoE"); vmiVt = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  globImg.assign((uint8_t *)ARENA, (uint8_t *)globalsEnd); globFl.assign(FL, FL + (globalsEnd - ARENA));
}
static unsigned instCounter = 0;
static void decode(DFunc *D) {
  if (D->decoded) return; D->decoded = true; const Function &F = *D->F; std::unordered_map<const Value *, int> slot; int ns = 0;
  auto alloc = [&](const Value *v) { int n = nLeaves(v->getType()); slot[v] = ns; int r = ns; ns += n; return std::make_pair(r, n); };
  for (auto &A : F.args()) D->args.push_back(alloc(&A));
  for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) alloc(&I);
  std::unordered_map<const Value *, int> cmap; std::unordered_map<const BasicBlock *, int> bidx; int bi = 0; for (auto &B : F) bidx[&B] = bi++;
  auto opd = [&](const Value *v) -> int { auto it = slot.find(v); if (it != slot.end()) return it->second; auto *c = dyn_cast<Constant>(v); if (!c) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return -1; fprintf(stderr, "bad operand\n"); abort(); }
    auto ci = cmap.find(v); if (ci != cmap.end()) return ci->second; std::vector<uint64_t> vals; flattenConst(c, vals); int base = ~(int)D->consts.size(); for (auto x : vals) D->consts.push_back({x, nullptr}); cmap[v] = base; return base; };
  // note: const operand leaf i is at index (~base)+i  => encoded base-i
  D->bl.resize(F.size());
  for (auto &B : F) {
    DBlock &db = D->bl[bidx[&B]]; db.bb = &B; db.gid = nBlocks++; blockIdx.push_back({D, bidx[&B]});
    for (auto &I : B) {
      if (isa<PHINode>(I)) { auto &P = cast<PHINode>(I); int n = nLeaves(P.getType()); for (unsigned k = 0; k < P.getNumIncomingValues(); k++) { int src = opd(P.getIncomingValue(k)); auto &e = db.phi[bidx[P.getIncomingBlock(k)]]; bool dup = false; for (auto &m : e.moves) if (m.first == slot[&P]) dup = true; if (dup) continue; for (int q = 0; q < n; q++) e.moves.push_back({slot[&P] + q, src >= 0 ? src + q : src - q}); } continue; }
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) continue; }
      DInst d; d.I = &I; d.op = I.getOpcode(); d.iid = instCounter++; if (slot.count(&I)) d.dst = slot[&I]; d.nl = nLeaves(I.getType());
      leavesOf(I.getType(), 0, d.lv); if (!d.lv.empty()) { d.bits = d.lv[0].bits; d.kind = d.lv[0].kind; }
      if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
        d.o.push_back(opd(gep->getPointerOperand())); for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) { Value *ix = gti.getOperand();
          if (StructType *st = gti.getStructTypeOrNull()) { d.coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t es = DL->getTypeAllocSize(gti.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) d.coff += ci->getSExtValue() * es; else { d.idx.push_back({opd(ix), es}); d.lv2.push_back(ix->getType()->getIntegerBitWidth()); } } }
        db.in.push_back(std::move(d)); continue; }
      if (auto *ai = dyn_cast<AllocaInst>(&I)) { d.coff = DL->getTypeAllocSize(ai->getAllocatedType()); d.sub = ai->getAlign().value(); d.o.push_back(opd(ai->getArraySize())); db.in.push_back(std::move(d)); continue; }
      if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { d.o.push_back(opd(br->getCondition())); d.b0 = bidx[br->getSuccessor(0)]; d.b1 = bidx[br->getSuccessor(1)]; } else d.b0 = bidx[br->getSuccessor(0)]; db.in.push_back(std::move(d)); continue; }
      if (auto *sw = dyn_cast<SwitchInst>(&I)) { d.o.push_back(opd(sw->getCondition())); d.bits = sw->getCondition()->getType()->getIntegerBitWidth(); d.b0 = bidx[sw->getDefaultDest()]; for (auto &c : sw->cases()) d.sw.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]}); db.in.push_back(std::move(d)); continue; }
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (cb->isInlineAsm()) { d.sub = 99999; db.in.push_back(std::move(d)); continue; }
        Function *cf = cb->getCalledFunction(); if (!cf) if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliaseeObject());
        if (cf) { d.callee = fmap[cf]; d.sub = cf->getIntrinsicID(); } else d.b1 = opd(cb->getCalledOperand());
        for (unsigned k = 0; k < cb->arg_size(); k++) { Value *a = cb->getArgOperand(k); if (a->getType()->isMetadataTy()) continue; d.o.push_back(opd(a)); d.anl.push_back(nLeaves(a->getType())); if (cb->isByValArgument(k)) d.byval.push_back({k, DL->getTypeAllocSize(cb->getParamByValType(k))}); }
        if (cb->arg_size()) { std::vector<Leaf> l; leavesOf(cb->getArgOperand(0)->getType(), 0, l); if (l.size()) { d.sbits = l[0].bits; d.skind = l[0].kind; } }
        if (auto *inv = dyn_cast<InvokeInst>(&I)) { d.isInvoke = true; d.b0 = bidx[inv->getNormalDest()]; d.lv2.push_back(bidx[inv->getUnwindDest()]); }
        db.in.push_back(std::move(d)); continue; }
      if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { int o = opd(ev->getAggregateOperand()); Type *t = ev->getAggregateOperand()->getType(); int skip = 0; for (unsigned ix : ev->indices()) { for (unsigned q = 0; q < ix; q++) skip += nLeaves(t->isStructTy() ? t->getStructElementType(q) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } d.o.push_back(o >= 0 ? o + skip : o - skip); db.in.push_back(std::move(d)); continue; }
      if (auto *iv = dyn_cast<InsertValueInst>(&I)) { Type *t = iv->getAggregateOperand()->getType(); int skip = 0; for (unsigned ix : iv->indices()) { for (unsigned q = 0; q < ix; q++) skip += nLeaves(t->isStructTy() ? t->getStructElementType(q) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } d.o = {opd(iv->getAggregateOperand()), opd(iv->getInsertedValueOperand())}; d.b0 = skip; d.b1 = nLeaves(iv->getInsertedValueOperand()->getType()); db.in.push_back(std::move(d)); continue; }
      if (auto *lp = dyn_cast<LandingPadInst>(&I)) { for (unsigned k = 0; k < lp->getNumClauses(); k++) { if (lp->isCatch(k)) d.sw.push_back({constScalar(lp->getClause(k)), 1}); else d.sw.push_back({0, 2}); } d.sub = lp->isCleanup(); db.in.push_back(std::move(d)); continue; }
      if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { for (int m : sv->getShuffleMask()) d.lv2.push_back(m); d.b0 = nLeaves(sv->getOperand(0)->getType()); }
      for (auto &u : I.operands()) if (!isa<BasicBlock>(u)) d.o.push_back(opd(u));
      if (I.getNumOperands()) { std::vector<Leaf> l; Type *t0 = I.getOperand(0)->getType(); if (!t0->isLabelTy()) leavesOf(t0, 0, l); if (l.size()) { d.sbits = l[0].bits; d.skind = l[0].kind; }
        if (isa<StoreInst>(I)) d.lv = l; if (isa<ReturnInst>(I)) { d.lv = l; d.nl = l.size(); } if (isa<StoreInst>(I)) d.nl = l.size(); }
      else if (isa<ReturnInst>(I)) d.nl = 0;
      if (auto *ci = dyn_cast<CmpInst>(&I)) d.sub = ci->getPredicate();
      if (isa<SelectInst>(I)) { d.b0 = nLeaves(I.getOperand(0)->getType()); std::vector<Leaf> l; leavesOf(I.getOperand(1)->getType(), 0, l); if (l.size()) { d.sbits = l[0].bits; d.skind = l[0].kind; } }
      db.in.push_back(std::move(d));
    }
  }
  D->nslots = ns; if (cover.size() < nBlocks) cover.resize(nBlocks + 1000, 0);
}

// ------------------------------------------------------------------ run (one path)
struct Decision { bool taken; int64_t val; };
struct Job { std::vector<Decision> dec; std::vector<Q> model; };
struct PathEnd { std::string why; };
struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; bool confirmed = false; std::string replayOut, file; };
struct Frame { DFunc *f; int base; int blk, pc; uint64_t sp; const DInst *call; int prevBlk; };
struct InputRec { std::string name; Atom *a; int sc = 0; /* value is a * 2^sc */ };
struct RunStats { unsigned long steps = 0, forks = 0, checks = 0, checksUnsat = 0, checksTriv = 0, checksUnknown = 0, branchUnknown = 0, concretize = 0, assumes = 0; std::map<std::string, long> reach, checkMsg; };
static z3::context *ZC = nullptr;
static std::string sgetRepl(const std::string &inFile, int *code);

struct Run {
  ExprCtx X; SolverStats &sst; Solver S; RunStats &st; std::deque<Sym> syms; std::vector<Val> regs; std::vector<Frame> fr; uint64_t heap, sp; std::unordered_map<uint64_t, std::pair<Sym *, int>> smem; std::unordered_map<uint64_t, uint64_t> live; // base->size
  Job job; std::vector<Decision> dec; std::vector<Job> newJobs; std::unordered_set<BoolE *> known; std::vector<InputRec> inputs; std::vector<Violation> viol; std::vector<std::pair<std::string, Val>> observed; std::vector<int> obsKind; unsigned long steps = 0; double t0; std::unordered_map<const Lin *, const Lin *> rndMemo[2];
  uint64_t excObj = 0, excTi = 0; std::vector<std::pair<uint64_t, uint64_t>> caught; std::string endWhy; uint64_t uninitReads = 0; std::string uninitWhere; std::vector<std::string> notes; bool expectAbort = false; long liveBytes = 0; std::string outBuf; std::map<uint64_t,std::string> vfiles; int rmode = 0;
  Run(Job j, SolverStats &ss, RunStats &rs) : sst(ss), S(X, *ZC, ss, O.rlimit), st(rs), job(std::move(j)) { X.model = job.model; heap = globalsEnd + 4096; sp = ARENA + STACK_OFF; regs.reserve(1 << 16); t0 = nowS(); }
  // ---- symbols
  Sym *mkS(SK k, int w, const Lin *l, BoolE *b) { syms.push_back({k, w, l, b, nullptr}); return &syms.back(); }
  static double asD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; } static uint64_t asU(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
  static float asF(uint64_t u) { float d; uint32_t x = u; memcpy(&d, &x, 4); return d; } static uint64_t fU(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
  static uint64_t mask(uint64_t u, int w) { return w >= 64 ? u : u & ((1ull << w) - 1); } static int64_t sx(uint64_t u, int w) { return w >= 64 ? (int64_t)u : ((int64_t)(u << (64 - w))) >> (64 - w); }
  static Z zI(int64_t v) { Z z; mpz_set_si(z.get_mpz_t(), v); return z; }
  std::string where() { std::string s; int n = 0; for (int i = (int)fr.size() - 1; i >= 0 && n < 6; i--, n++) { Frame &f = fr[i]; std::string ln; auto &b = f.f->bl[f.blk]; int p = std::min<int>(f.pc, (int)b.in.size() - 1); if (p >= 0) if (auto &dl = b.in[p].I->getDebugLoc()) { auto *sc = dl->getFilename().data(); (void)sc; ln = dl->getFilename().str() + ":" + std::to_string(dl.getLine()); } s += demangle(f.f->name) + (ln.empty() ? "" : " (" + ln + ")") + " < "; } return s; }
  [[noreturn]] void inc(const std::string &s) { throw Inconclusive(s + " in " + (fr.empty() ? std::string("?") : demangle(fr.back().f->name))); }
  // ---- Lin conversions
  const Lin *linI(const Val &v, int w) { // signed
    if (!v.s) return X.cst(Q(zI(sx(v.u, w)))); Sym *s = v.s;
    if (s->k == S_INT) { if (s->w != w) { if (s->w < w) return s->l; return wrap(s->l, w); } return s->l; }
    if (s->k == S_BOOL) return w == 1 ? X.ite(s->b, X.cst(-1), X.cst(0)) : X.ite(s->b, X.cst(1), X.cst(0));
    if (s->k == S_COMP) { const Lin *r = X.cst(0); for (auto &p : *s->p) { Val pv{p.u, p.s}; const Lin *l; if (p.s && p.s->k == S_DBL) inc("integer use of double bits"); l = uns(linI(pv, p.size * 8), p.size * 8); r = X.axpy(r, pow2(8 * p.off), l); } return wrap(r, w); }
    inc("integer use of double bits");
  }
  const Lin *uns(const Lin *l, int w) { if (l->hl && l->lo >= 0) return l; return X.ite(X.lt0(l), X.axpy(l, 1, X.cst(pow2(w))), l); }
  const Lin *wrap(const Lin *l, int w) { Q h = pow2(w - 1); if (l->hl && l->hh && l->lo >= -h && l->hi < h) return l; const Lin *q = X.floorL(X.scale(X.axpy(l, 1, X.cst(h)), pow2(-w))); return X.axpy(l, -pow2(w), q); }
  Val vI(const Lin *l, int w) { if (l->isConst()) { Z z = l->c0.get_num(); mpz_class m; mpz_fdiv_r_2exp(m.get_mpz_t(), z.get_mpz_t(), w); uint64_t u = 0; mpz_export(&u, nullptr, -1, 8, 0, 0, m.get_mpz_t()); return {mask(u, w), nullptr}; } return {0, mkS(S_INT, w, l, nullptr)}; }
  BoolE *boolOf(const Val &v) { if (!v.s) return X.bc(v.u & 1); if (v.s->k == S_BOOL) return v.s->b; if (v.s->k == S_INT) return X.not_(X.eq0(v.s->l)); inc("bool of non-bool"); }
  Val vB(BoolE *b) { if (b == X.T) return {1, nullptr}; if (b == X.F) return {0, nullptr}; return {0, mkS(S_BOOL, 1, nullptr, b)}; }
  const Lin *linD(const Val &v) { if (!v.s) { double d = asD(v.u); if (!std::isfinite(d)) inc("non-finite mixed with symbolic"); return X.cst(Q(d)); } if (v.s->k == S_DBL) return v.s->l; inc("double use of integer bits"); }
  const Lin *linF(const Val &v, int kind) { if (v.s) { if (v.s->k == S_DBL) return v.s->l; inc("float use of int bits"); } double d = kind == 2 ? asF(v.u) : asD(v.u); if (!std::isfinite(d)) inc("non-finite mixed with symbolic"); return X.cst(Q(d)); }
  Val vD(const Lin *l, int kind = 1) { if (l->isConst()) { double d = qToD(l->c0); if (kind == 2) return {fU((float)d), nullptr}; return {asU(d), nullptr}; } return {0, mkS(S_DBL, kind == 2 ? 32 : 64, l, nullptr)}; }
  Val rnd(const Lin *l, int kind) { // IEEE rounding of an exact result
    if (l->isConst()) return vD(l, kind); int p = kind == 2 ? 24 : 53;
    if (!l->hl || !l->hh) inc("unbounded double"); Q m = std::max(abs(l->lo), abs(l->hi)); if (m == 0) return vD(l, kind);
    int e = ceilLog2(m);
    if (e > (kind == 2 ? 127 : 1023)) { inc("possible overflow to infinity"); }
    if (l->g != GNONE && e <= l->g + p) return vD(l, kind);
    auto &memo = rndMemo[kind == 2]; auto it = memo.find(l); if (it != memo.end()) return vD(it->second, kind);
    Q B = pow2(e - p - 1); X.nRoundVars++; Atom *v = X.newVar(false, -B, B, GNONE, Q(0)); const Lin *r = X.add(l, X.ofAtom(v));
    // rounding is monotone and fixes representable numbers: it never crosses zero
    BoolE *neg = X.le0(l), *pos = X.le0(X.scale(l, -1));
    if (neg != X.T && neg != X.F) { addDef(X.or_(X.not_(neg), X.le0(r))); addDef(X.or_(X.not_(pos), X.le0(X.scale(r, -1)))); }
    memo[l] = r; rndOrg[r] = l; rndOrg[X.scale(r, -1)] = X.scale(l, -1); return vD(r, kind);
  }
  // rounding is monotone and fixes representable numbers: facts added where a comparison or conversion needs them
  std::unordered_map<const Lin *, const Lin *> rndOrg; std::set<std::pair<const Lin *, const Lin *>> rndDone;
  void bracketInt(const Lin *r) { auto it = rndOrg.find(r); if (it == rndOrg.end()) return; const Lin *l = it->second; if (!l->hl || !l->hh || abs(l->lo) > pow2(52) || abs(l->hi) > pow2(52)) return; if (!rndDone.insert({r, nullptr}).second) return; rndDone.insert({X.scale(r, -1), nullptr});
    addDef(X.le0(X.sub(X.floorL(l), r))); addDef(X.le0(X.add(r, X.floorL(X.scale(l, -1))))); }
  void monoConst(const Lin *r, const Lin *c) { if (!c->isConst()) { if (rndOrg.count(c) && !rndOrg.count(r)) return monoConst(c, r); } auto it = rndOrg.find(r); if (it == rndOrg.end()) return; const Lin *l = it->second; auto jt = rndOrg.find(c); const Lin *cl = c; if (!c->isConst()) { if (jt != rndOrg.end()) cl = jt->second; }
    if (!rndDone.insert({r, c}).second) return; addDef(X.or_(X.not_(X.le0(X.sub(l, cl))), X.le0(X.sub(r, c)))); addDef(X.or_(X.not_(X.le0(X.sub(cl, l))), X.le0(X.sub(c, r)))); }
  void addDef(BoolE *b) { if (b == X.T) return; if (!X.eval(b)) { // choose model value consistent
      std::vector<Q> m; z3::check_result r = S.query(b, &m); if (r != z3::sat) inc("definition unsat"); X.model = m; X.epoch++; }
    S.add(b); }
  // ---- decisions
  bool branch(BoolE *c) {
    if (c == X.T) return true; if (c == X.F) return false; if (known.count(c)) return true; if (known.count(X.not_(c))) return false;
    size_t i = dec.size(); bool v = X.eval(c);
    if (i < job.dec.size()) { if (job.dec[i].taken != v || job.dec[i].val != INT64_MIN) inc("replay divergence"); dec.push_back(job.dec[i]); assertKnown(v ? c : X.not_(c)); return v; }
    BoolE *o = v ? X.not_(c) : c; std::vector<Q> m; auto r = S.query(o, &m);
    if (r == z3::sat) { Job j; j.dec = dec; j.dec.push_back({!v, INT64_MIN}); j.model = m; newJobs.push_back(std::move(j)); st.forks++; } else if (r == z3::unknown) { st.branchUnknown++; }
    dec.push_back({v, INT64_MIN}); if (r == z3::unsat) { known.insert(v ? c : X.not_(c)); } else assertKnown(v ? c : X.not_(c)); return v;
  }
  void assertKnown(BoolE *b) { S.add(b); addKnown(b); }
  void addKnown(BoolE *b) { known.insert(b); if (b->k == B_AND) { addKnown(b->a); addKnown(b->b); } else if (b->k == B_NOT && b->a->k == B_OR) { addKnown(X.not_(b->a->a)); addKnown(X.not_(b->a->b)); } }
  int64_t concretize(const Lin *l) {
    if (l->isConst()) return l->c0.get_num().get_si(); if (!l->integral) inc("concretize non-integral"); int n = 0; st.concretize++;
    for (;;) {
      size_t i = dec.size();
      if (i < job.dec.size()) { Decision d = job.dec[i]; if (d.val == INT64_MIN) inc("replay divergence"); dec.push_back(d); BoolE *c = X.eq0(X.axpy(l, -1, X.cst(Q(zI(d.val))))); if (d.taken) { if (!X.eval(c)) inc("replay divergence"); if (c != X.T) assertKnown(c); return d.val; } assertKnown(X.not_(c)); if (++n > O.maxConcretize) inc("too many values"); continue; }
      Z z = X.eval(l).get_num(); if (!z.fits_slong_p()) inc("concretize range"); int64_t v = z.get_si(); BoolE *c = X.eq0(X.axpy(l, -1, X.cst(Q(z))));
      if (c == X.T || known.count(c)) { dec.push_back({true, v}); return v; }
      std::vector<Q> m; auto r = S.query(X.not_(c), &m); if (r == z3::sat) { Job j; j.dec = dec; j.dec.push_back({false, v}); j.model = m; newJobs.push_back(std::move(j)); st.forks++; } else if (r == z3::unknown) st.branchUnknown++;
      dec.push_back({true, v}); assertKnown(c); return v;
    }
  }
  uint64_t concI(const Val &v, int w) { if (!v.s) return v.u; if (v.s->k == S_BOOL) return branch(v.s->b) ? 1 : 0; return mask((uint64_t)concretize(linI(v, w)), w); }
  uint64_t concP(const Val &v) { if (!v.s) return v.u; if (v.s->k == S_DBL) inc("pointer from double bits"); return (uint64_t)concretize(linI(v, 64)); }
  void assume(BoolE *b) {
    st.assumes++; if (b == X.T || known.count(b)) return; if (b == X.F) throw PathEnd{"assume"};
    if (!X.eval(b)) { std::vector<Q> m; auto r = S.query(b, &m); if (r == z3::unsat) throw PathEnd{"assume"}; if (r == z3::unknown) throw Inconclusive("solver unknown on assumption"); X.model = m; X.epoch++; }
    assertKnown(b);
  }
  std::vector<std::pair<std::string, std::string>> inputVals(const std::vector<Q> &m) { std::vector<std::pair<std::string, std::string>> r; for (auto &in : inputs) { Q q = in.a->varIdx < (int)m.size() ? m[in.a->varIdx] : Q(0); char buf[64]; if (in.sc) { snprintf(buf, sizeof buf, "%.17g", qToD(q * pow2(in.sc))); r.push_back({in.name, buf}); } else if (in.a->isInt) r.push_back({in.name, q.get_num().get_str()}); else { snprintf(buf, sizeof buf, "%.17g", qToD(q)); r.push_back({in.name, buf}); } } return r; }
  bool confirm(Violation &v) { // replay the counterexample natively
    if (O.replay.empty()) { v.confirmed = true; return true; }
    static int cnt = 0; std::string f = O.scratch + "/cex." + std::to_string(getpid()) + "." + std::to_string(cnt++) + ".txt"; { std::ofstream o(f); for (auto &p : v.inputs) o << p.first << " " << p.second << "\n"; } v.file = f;
    int code; v.replayOut = sgetRepl(f, &code); v.confirmed = code == 66 || code == 99; v.replayOut = "exit " + std::to_string(code) + ": " + v.replayOut; return v.confirmed;
  }
  std::map<std::string, int> triedSpurious;
  void check(BoolE *b, const std::string &msg) {
    st.checks++; st.checkMsg[msg]++; if (b == X.T || known.count(b)) { st.checksTriv++; return; }
    std::vector<Q> m; if (b != X.F) { auto r = S.query(X.not_(b), &m); if (r == z3::unsat) { st.checksUnsat++; known.insert(b); return; } if (r == z3::unknown) { st.checksUnknown++; return; } } else m = X.model;
    Violation v; v.kind = "check"; v.msg = msg; v.where = where(); v.inputs = inputVals(m); confirm(v); viol.push_back(v);
    if (!v.confirmed && b != X.F) { // try once more with the real-valued inputs forced onto their declared dyadic grid
      S.S.push(); for (auto &in : inputs) if (!in.a->isInt && in.a->g != GNONE) { z3::expr k = ZC->int_const(("k" + std::to_string(in.a->varIdx)).c_str()); S.S.add(S.tr(in.a) == S.num(pow2(in.a->g), false) * z3::expr(*ZC, Z3_mk_int2real(*ZC, k))); }
      auto r = S.query(X.not_(b), &m); S.S.pop(); if (r == z3::sat) { Violation v2 = v; v2.inputs = inputVals(m); confirm(v2); viol.push_back(v2); }
    }
    if (b == X.F) throw PathEnd{"violation"}; if (X.eval(b)) assertKnown(b); else { auto r = S.query(b, &m); if (r != z3::sat) throw PathEnd{"violation"}; X.model = m; X.epoch++; assertKnown(b); }
  }
  [[noreturn]] void event(const std::string &kind, const std::string &msg) { Violation v; v.kind = kind; v.msg = msg; v.where = where(); v.inputs = inputVals(X.model); confirm(v); viol.push_back(v); throw PathEnd{kind}; }

  // ---- memory
  uint64_t bigAt = 0, bigDirtyLo = BIG_HI, bigDirtyHi = BIG_LO;
  bool inArena(uint64_t a, uint64_t n) { return a >= ARENA && a + n <= ARENA + ARENA_SZ && a + n >= a && (a < BIG_LO || (bigAt && a >= bigAt)); }
  void bigDirty(uint64_t a, uint64_t n) { if (a >= BIG_LO) { bigDirtyLo = std::min(bigDirtyLo, a); bigDirtyHi = std::max(bigDirtyHi, a + n); } }
  void bigClean() { if (bigDirtyHi > bigDirtyLo) { memset((void *)bigDirtyLo, 0, bigDirtyHi - bigDirtyLo); memset(FL + (bigDirtyLo - ARENA), F_INIT, bigDirtyHi - bigDirtyLo); } bigDirtyLo = BIG_HI; bigDirtyHi = BIG_LO; bigAt = 0; }
  void dropSym(uint64_t a, uint64_t n) { // destroy symbolic cells overlapping [a,a+n)
    uint8_t *f = FL + (a - ARENA); if (n && f[0] == F_CONT) { uint64_t b = a; while (FL[b - ARENA] == F_CONT) b--; auto it = smem.find(b); if (it != smem.end()) { int sz = it->second.second; Sym *s = it->second.first; if (b + sz > a + n || b < a) splitSym(b, sz, s); } f = FL + (a - ARENA); }
    for (uint64_t i = 0; i < n; i++) if (f[i] == F_SYM) { auto it = smem.find(a + i); if (it != smem.end()) { int sz = it->second.second; if (i + sz > n) { splitSym(a + i, sz, it->second.first); } smem.erase(a + i); } }
  }
  void splitSym(uint64_t b, int sz, Sym *s) { // break an int cell into byte cells
    smem.erase(b); if (s->k == S_DBL) inc("partial overwrite of symbolic double"); Val v{0, s}; const Lin *l = uns(linI(v, sz * 8), sz * 8);
    for (int i = 0; i < sz; i++) { const Lin *q = X.floorL(X.scale(l, pow2(-8 * i))); const Lin *r = X.axpy(q, -256, X.floorL(X.scale(q, pow2(-8)))); Val bv = vI(wrap(r, 8), 8); if (bv.s) { smem[b + i] = {bv.s, 1}; FL[b + i - ARENA] = F_SYM; } else { *(uint8_t *)(b + i) = bv.u; FL[b + i - ARENA] = F_INIT; } }
  }
  void badAccess(uint64_t a, uint64_t n, bool wr) { char b[128]; snprintf(b, sizeof b, "invalid %s of %lu bytes at %s", wr ? "write" : "read", (unsigned long)n, a < 65536 ? "null page" : "unallocated memory"); event("memory", b); }
  Val load(uint64_t a, const Leaf &L) {
    int n = L.size; if (!inArena(a, n)) badAccess(a, n, false); uint8_t *f = FL + (a - ARENA); uint64_t u = 0;
    bool ok; if (n == 8) { uint64_t t; memcpy(&t, f, 8); ok = t == 0x0101010101010101ull; } else if (n == 4) { uint32_t t; memcpy(&t, f, 4); ok = t == 0x01010101u; } else if (n == 1) ok = *f == 1; else { ok = true; for (int i = 0; i < n; i++) ok &= f[i] == 1; }
    if (ok) { if (n > 8) inc("wide load"); memcpy(&u, (void *)a, n); return {L.kind == 0 ? mask(u, L.bits) : u, nullptr}; }
    bool sy = false; for (int i = 0; i < n; i++) { if (f[i] == F_NONE) badAccess(a, n, false); if (f[i] >= F_SYM) sy = true; if (f[i] == F_UNINIT) { uninitReads++; if (uninitWhere.empty()) uninitWhere = where(); } }
    if (n > 8) inc("wide load"); if (!sy) { memcpy(&u, (void *)a, n); return {L.kind == 0 ? mask(u, L.bits) : u, nullptr}; }
    if (f[0] == F_SYM) { auto &e = smem[a]; if (e.second == n) { if (L.kind == 0 && L.bits == 1) return vB(boolOf({0, e.first})); return {0, e.first}; } }
    // inside a larger cell?
    uint64_t b = a; while (FL[b - ARENA] == F_CONT) b--; auto it = smem.find(b);
    if (it != smem.end() && it->second.second > n && b + it->second.second >= a + n) { Sym *s = it->second.first; int sz = it->second.second;
      if (s->k == S_COMP) { for (auto &p : *s->p) if (b + p.off == a && p.size == n) return {p.u, p.s}; }
      if (s->k == S_DBL) inc("partial read of symbolic double"); const Lin *l = uns(linI({0, s}, sz * 8), sz * 8); const Lin *q = X.floorL(X.scale(l, pow2(-8 * (int)(a - b)))); return vI(wrap(q, n * 8), n * 8); }
    // composite
    auto *pv = new std::vector<Piece>(); int i = 0; while (i < n) { if (f[i] == F_SYM) { auto &e = smem[a + i]; if (i + e.second > n) inc("straddling symbolic load"); pv->push_back({i, e.second, e.first, 0}); i += e.second; } else if (f[i] == F_CONT) inc("straddling symbolic load"); else { pv->push_back({i, 1, nullptr, *(uint8_t *)(a + i)}); i++; } }
    Sym *s = mkS(S_COMP, n * 8, nullptr, nullptr); s->p = pv; return {0, s};
  }
  void store(uint64_t a, const Val &v, const Leaf &L) {
    int n = L.size; if (!inArena(a, n)) badAccess(a, n, true); uint8_t *f = FL + (a - ARENA); bool sy = false; for (int i = 0; i < n; i++) { if (f[i] == F_NONE) badAccess(a, n, true); if (f[i] >= F_SYM) sy = true; }
    if (sy) dropSym(a, n); bigDirty(a, n);
    if (!v.s) { memcpy((void *)a, &v.u, std::min(n, 8)); memset(f, F_INIT, n); return; }
    if (v.s->k == S_COMP) { for (auto &p : *v.s->p) { if (p.s) { smem[a + p.off] = {p.s, p.size}; f[p.off] = F_SYM; for (int i = 1; i < p.size; i++) f[p.off + i] = F_CONT; } else { memcpy((void *)(a + p.off), &p.u, p.size); memset(f + p.off, F_INIT, p.size); } } return; }
    Sym *s = v.s; if (s->k == S_BOOL) s = mkS(S_INT, n * 8, X.ite(s->b, X.cst(1), X.cst(0)), nullptr);
    smem[a] = {s, n}; f[0] = F_SYM; for (int i = 1; i < n; i++) f[i] = F_CONT;
  }
  uint64_t halloc(uint64_t n, bool zero = false) {
    if (zero && n > (1u << 20) && n <= BIG_SZ && !bigAt) { if (!bigReady) { memset(FL + (BIG_LO - ARENA), F_INIT, BIG_SZ); bigReady = true; } bigAt = (BIG_HI - n) & ~15ull; live[bigAt] = n; liveBytes += n; return bigAt; }
    uint64_t a = heap + 16; if (n > (256u << 20)) { event("memory", "huge allocation request (size " + std::to_string(n) + ")"); } heap = (a + n + 16 + 15) & ~15ull; if (heap > ARENA + STACK_OFF) inc("out of model heap"); memset((void *)a, zero ? 0 : PATTERN, n); memset(FL + (a - ARENA), zero ? F_INIT : F_UNINIT, n); live[a] = n; liveBytes += n; return a; }
  void hfree(uint64_t a) { if (!a) return; auto it = live.find(a); if (it == live.end()) event("memory", "free of a pointer that is not a live allocation"); uint64_t n = it->second; if (a == bigAt) { if (bigDirtyHi > bigDirtyLo) dropSym(bigDirtyLo, bigDirtyHi - bigDirtyLo); bigClean(); liveBytes -= n; live.erase(it); return; } dropSym(a, n); memset(FL + (a - ARENA), F_NONE, n); liveBytes -= n; live.erase(it); }
  void chkRange(uint64_t a, uint64_t n, bool wr) { if (!n) return; if (!inArena(a, n)) badAccess(a, n, wr); uint8_t *f = FL + (a - ARENA); if (memchr(f, F_NONE, n)) badAccess(a, n, wr); }
  void mcopy(uint64_t d, uint64_t s, uint64_t n) {
    if (!n || d == s) return; chkRange(s, n, false); chkRange(d, n, true);
    std::vector<std::pair<uint64_t, std::pair<Sym *, int>>> cells; uint8_t *f = FL + (s - ARENA);
    if (f[0] == F_CONT) { uint64_t b = s; while (FL[b - ARENA] == F_CONT) b--; auto it = smem.find(b); splitSym(b, it->second.second, it->second.first); }
    for (uint64_t i = 0; i < n; i++) if (f[i] == F_SYM) { auto e = smem[s + i]; if (i + e.second > n) { splitSym(s + i, e.second, e.first); e = smem.count(s + i) ? smem[s + i] : std::make_pair((Sym *)nullptr, 0); if (!e.first) continue; } cells.push_back({i, e}); }
    std::vector<uint8_t> fc(f, f + n); bigDirty(d, n); dropSym(d, n); memmove((void *)d, (void *)s, n); memcpy(FL + (d - ARENA), fc.data(), n); for (auto &c : cells) smem[d + c.first] = c.second;
  }
  void mset(uint64_t d, int c, uint64_t n) { if (!n) return; chkRange(d, n, true); bigDirty(d, n); dropSym(d, n); memset((void *)d, c, n); memset(FL + (d - ARENA), F_INIT, n); }
  uint64_t inP = 0, inN = 0, inPos = 0, inH = 0; uint64_t outH = 0; std::string outText; std::vector<Val> outVals;
  void outFmt(Val *a, int n, int f) {
    if (!outH || a[0].s || a[0].u != outH) return; std::string m = cstr(concP(a[f])); int q = f + 1;
    for (size_t i = 0; i < m.size(); i++) { if (m[i] != '%') { outText += m[i]; continue; } i++; std::string fl; while (i < m.size() && strchr("0123456789.-+ #", m[i])) fl += m[i++]; int lng = 0; while (i < m.size() && strchr("lhzj", m[i])) { if (m[i] != 'h') lng++; i++; } char c = i < m.size() ? m[i] : '%'; if (c == '%') { outText += '%'; continue; } if (q >= n) inc("printf argument missing"); Val v = a[q++];
      if (c == 's') { outText += cstr(concP(v)); continue; } outText += '\1'; if (c == 'd' || c == 'i' || c == 'u') { int w = lng ? 64 : 32; if (!v.s) outVals.push_back({asU((double)sx(v.u, w)), nullptr}); else outVals.push_back(rnd(linI(v, w), 1)); } else if (strchr("gGeEfF", c)) outVals.push_back(v); else inc(std::string("printf conversion ") + c); }
  }
  std::string cstr(uint64_t a) { std::string s; for (;; a++) { if (!inArena(a, 1) || FL[a - ARENA] == F_NONE) badAccess(a, 1, false); if (FL[a - ARENA] >= F_SYM) inc("symbolic string"); char c = *(char *)a; if (!c) return s; s += c; } }
  uint64_t rd64(uint64_t a) { if (!inArena(a, 8)) return 0; uint64_t u; memcpy(&u, (void *)a, 8); return u; }
  bool typeMatch(uint64_t t, uint64_t c, int depth = 0) { if (t == c) return true; if (!inArena(t, 24) || depth > 20) return false; uint64_t vt = rd64(t); if (vt == siVt) return typeMatch(rd64(t + 16), c, depth + 1); if (vt == vmiVt) { uint32_t n; memcpy(&n, (void *)(t + 20), 4); for (uint32_t i = 0; i < n && i < 16; i++) if (typeMatch(rd64(t + 24 + 16 * i), c, depth + 1)) return true; } return false; }

  // ---- arithmetic
  Val fbin(unsigned op, const Val &a, const Val &b, int kind) {
    if (!a.s && !b.s) { if (kind == 2) { float x = asF(a.u), y = asF(b.u), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); } return {fU(r), nullptr}; }
      double x = asD(a.u), y = asD(b.u), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } return {asU(r), nullptr}; }
    // one operand concrete non-finite
    auto cd = [&](const Val &v) { return kind == 2 ? (double)asF(v.u) : asD(v.u); }; auto mkd = [&](double d) -> Val { return kind == 2 ? Val{fU((float)d), nullptr} : Val{asU(d), nullptr}; };
    for (int q = 0; q < 2; q++) { const Val &c = q ? b : a; if (!c.s && !std::isfinite(cd(c))) { double d = cd(c); if (std::isnan(d)) return c; const Lin *o = linF(q ? a : b, kind); if (op == Instruction::FAdd) return c; if (op == Instruction::FSub) return mkd(q ? -d : d); if (op == Instruction::FMul || (op == Instruction::FDiv && q == 0)) { bool neg = branch(X.lt0(o)); if (!neg && branch(X.eq0(o))) return mkd(op == Instruction::FMul ? NAN : d); return mkd(neg ? -d : d); } if (op == Instruction::FDiv) return mkd(0.0); inc("inf op"); } }
    const Lin *x = linF(a, kind), *y = linF(b, kind);
    // absorption of a small symbolic term by a huge constant
    if (op == Instruction::FAdd || op == Instruction::FSub) for (int q = 0; q < 2; q++) { const Val &c = q ? b : a; const Lin *o = q ? x : y; if (!c.s) { double d = fabs(cd(c)); if (d > 1e30 && o->hl && o->hh) { Q m = std::max(abs(o->lo), abs(o->hi)); if (m * Q(1) < Q(d) * pow2(-60)) return op == Instruction::FSub && q ? mkd(-cd(c)) : c; } } }
    switch (op) {
      case Instruction::FAdd: return rnd(X.add(x, y), kind); case Instruction::FSub: return rnd(X.sub(x, y), kind);
      case Instruction::FMul: return rnd(mulSplit(x, y), kind);
      case Instruction::FDiv: {
        if (y->isConst()) { if (y->c0 == 0) { bool neg = branch(X.lt0(x)); if (!neg && branch(X.eq0(x))) return mkd(NAN); return mkd(neg ? -INFINITY : INFINITY); } return rnd(X.scale(x, 1 / y->c0), kind); }
        if (y->integral && y->hl && y->hh && y->hi - y->lo <= 64) { int64_t v = concretize(y); Val bv = kind == 2 ? Val{fU((float)v), nullptr} : Val{asU((double)v), nullptr}; if (x->isConst()) return fbin(op, a, bv, kind); return fbin(op, a, bv, kind); }
        if (y->t.size() == 1 && y->t[0].first->isInt && y->t[0].first->hl && y->t[0].first->hh && y->t[0].first->hi - y->t[0].first->lo <= 64) { concretize(X.ofAtom(y->t[0].first)); Q v = X.eval(y); Val bv = vD(X.cst(v), kind); return fbin(op, a, bv, kind); }
        if (branch(X.eq0(y))) { return fbin(op, a, mkd(0.0), kind); }
        { // nonlinear quotient q*y = x
          if (branch(X.lt0(y))) { return fneg(divPos(x, X.scale(y, -1), kind), kind); } return divPos(x, y, kind); } }
      default: inc("symbolic frem");
    }
  }
  Val fneg(const Val &v, int kind) { if (!v.s) return kind == 2 ? Val{fU(-asF(v.u)), nullptr} : Val{asU(-asD(v.u)), nullptr}; return vD(X.scale(linF(v, kind), -1), kind); }
  std::map<std::pair<const Lin *, const Lin *>, const Lin *> divMemo;
  Val divPos(const Lin *x, const Lin *y, int kind) { // y>0 on this path
    auto key = std::make_pair(x, y); auto it = divMemo.find(key); const Lin *q;
    if (it != divMemo.end()) q = it->second; else {
      // bounds for the quotient: need y bounded away from zero
      Q ylo = y->lo; if (!y->hl || ylo <= 0) { // find a positive lower bound by solver probing
        Q b = 1; bool okb = false; for (int e = 0; e >= -40; e -= 4) { std::vector<Q> m; BoolE *c = X.lt0(X.axpy(y, -1, X.cst(pow2(e)))); if (c == X.F) { b = pow2(e); okb = true; break; } auto r = S.query(c, nullptr); if (r == z3::unsat) { b = pow2(e); okb = true; break; } } if (!okb) inc("division by a quantity not bounded away from zero"); ylo = b; }
      Q M = std::max(abs(x->lo), abs(x->hi)) / ylo; Q val = X.eval(x) / X.eval(y); Atom *v = X.newVar(false, -M, M, GNONE, val); X.model[v->varIdx] = X.eval(x) / X.eval(y); q = X.ofAtom(v); X.epoch++;
      const Lin *prod = X.mul(q, y); BoolE *d = X.eq0(X.sub(prod, x)); if (d != X.T) S.add(d); divMemo[key] = q; }
    return rnd(q, kind);
  }
  const Lin *mulSplit(const Lin *a, const Lin *b) { // prefer case splits on small integers over nonlinear terms
    if (a->isConst() || b->isConst()) return X.mul(a, b);
    auto small = [&](const Lin *l, int lim) { return l->integral && l->hl && l->hh && l->hi - l->lo <= lim; };
    if (rmode == 0) { if (small(a, 1) || small(b, 1)) return X.mul(a, b); if (small(a, 40) && (!small(b, 40) || a->hi - a->lo <= b->hi - b->lo)) { return X.scale(b, Q(zI(concretize(a)))); } if (small(b, 40)) return X.scale(a, Q(zI(concretize(b))));
      for (int q = 0; q < 2; q++) { const Lin *l = q ? b : a; if (l->t.size() == 1 && l->t[0].first->isInt && l->t[0].first->hl && l->t[0].first->hh && l->t[0].first->hi - l->t[0].first->lo <= 64) { concretize(X.ofAtom(l->t[0].first)); return X.scale(q ? a : b, X.eval(l)); } } }
    return X.mul(a, b);
  }
  Val fcmp(unsigned p, const Val &a, const Val &b, int kind) {
    auto cd = [&](const Val &v) { return kind == 2 ? (double)asF(v.u) : asD(v.u); };
    auto conc = [&](double x, double y) -> Val { bool un = std::isnan(x) || std::isnan(y), r = false; switch (p) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; } return {r, nullptr}; };
    if (!a.s && !b.s) return conc(cd(a), cd(b));
    if (!a.s && !std::isfinite(cd(a))) return conc(cd(a), 0.0); if (!b.s && !std::isfinite(cd(b))) return conc(0.0, cd(b));
    if (p == CmpInst::FCMP_ORD || p == CmpInst::FCMP_TRUE) return {1, nullptr}; if (p == CmpInst::FCMP_UNO || p == CmpInst::FCMP_FALSE) return {0, nullptr};
    const Lin *la_ = linF(a, kind), *lb_ = linF(b, kind); if (!rndOrg.empty()) { if (rndOrg.count(la_)) monoConst(la_, lb_); else if (rndOrg.count(lb_)) monoConst(lb_, la_); } const Lin *d = X.sub(la_, lb_);
    switch (p) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return vB(X.eq0(d)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return vB(X.not_(X.eq0(d))); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return vB(X.lt0(d)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return vB(X.le0(d)); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return vB(X.lt0(X.scale(d, -1))); default: return vB(X.le0(X.scale(d, -1))); }
  }
  Val ibin(unsigned op, const Val &a, const Val &b, int w) {
    if (!a.s && !b.s) { uint64_t x = a.u, y = b.u, r = 0; int64_t sxx = sx(x, w), syy = sx(y, w);
      switch (op) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::UDiv: if (!y) event("trap", "integer division by zero"); r = x / y; break; case Instruction::URem: if (!y) event("trap", "integer division by zero"); r = x % y; break;
        case Instruction::SDiv: if (!syy) event("trap", "integer division by zero"); if (syy == -1) r = -(uint64_t)sxx; else r = sxx / syy; break; case Instruction::SRem: if (!syy) event("trap", "integer division by zero"); r = syy == -1 ? 0 : sxx % syy; break;
        case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; case Instruction::Shl: r = y >= (unsigned)w ? 0 : x << y; break; case Instruction::LShr: r = y >= (unsigned)w ? 0 : x >> y; break; case Instruction::AShr: r = y >= (unsigned)w ? (sxx < 0 ? ~0ull : 0) : (uint64_t)(sxx >> y); break; default: inc("int op"); }
      return {mask(r, w), nullptr}; }
    if (w == 1) { BoolE *x = boolOf(a), *y = boolOf(b); switch (op) { case Instruction::And: case Instruction::Mul: return vB(X.and_(x, y)); case Instruction::Or: return vB(X.or_(x, y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return vB(X.xor_(x, y)); default: inc("i1 op"); } }
    // sign manipulation of doubles through integer ops
    if ((a.s && a.s->k == S_DBL && !b.s)) { if (op == Instruction::And && b.u == 0x7fffffffffffffffull) return vD(absL(a.s->l)); if (op == Instruction::Xor && b.u == 0x8000000000000000ull) return vD(X.scale(a.s->l, -1)); }
    const Lin *x = linI(a, w), *y = linI(b, w);
    switch (op) {
      case Instruction::Add: return vI(wrap(X.add(x, y), w), w); case Instruction::Sub: return vI(wrap(X.sub(x, y), w), w); case Instruction::Mul: return vI(wrap(mulSplit(x, y), w), w);
      case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem: {
        bool sg = op == Instruction::SDiv || op == Instruction::SRem; if (!sg) { x = uns(x, w); y = uns(y, w); } if (!y->isConst()) { if (branch(X.eq0(y))) event("trap", "integer division by zero"); y = X.cst(Q(zI(concretize(y)))); } if (y->c0 == 0) event("trap", "integer division by zero");
        Q c = y->c0; const Lin *q; if (x->hl && x->lo >= 0 && c > 0) q = X.floorL(X.scale(x, 1 / c)); else { const Lin *t = X.scale(x, 1 / c); q = X.ite(X.lt0(t), X.scale(X.floorL(X.scale(t, -1)), -1), X.floorL(t)); }
        if (op == Instruction::SDiv || op == Instruction::UDiv) return vI(wrap(q, w), w); return vI(wrap(X.axpy(x, -c, q), w), w); }
      case Instruction::Shl: if (y->isConst()) { return vI(wrap(X.scale(x, pow2(y->c0.get_num().get_si())), w), w); } break;
      case Instruction::LShr: if (y->isConst()) return vI(wrap(X.floorL(X.scale(uns(x, w), pow2(-y->c0.get_num().get_si()))), w), w); break;
      case Instruction::AShr: if (y->isConst()) return vI(X.floorL(X.scale(x, pow2(-y->c0.get_num().get_si()))), w); break;
      case Instruction::And: for (int q = 0; q < 2; q++) { const Lin *c = q ? x : y, *v = q ? y : x; if (c->isConst()) { Z m = c->c0.get_num(); if (m == 0) return {0, nullptr}; if (m == -1) return q ? b : a; if (m > 0 && mpz_popcount(Z(m + 1).get_mpz_t()) == 1) { Q md = Q(m + 1); if (v->hl && v->hh && v->lo >= 0 && v->hi <= m) return vI(v, w); return vI(wrap(X.axpy(v, -md, X.floorL(X.scale(v, 1 / md))), w), w); }
            if (m < 0) { Z n = -m; if (mpz_popcount(n.get_mpz_t()) == 1) { Q md(n); return vI(wrap(X.scale(X.floorL(X.scale(v, 1 / md)), md), w), w); } }
            if (m > 0 && mpz_popcount(m.get_mpz_t()) == 1) { // single bit
              const Lin *h = X.floorL(X.scale(v, 1 / Q(m))); const Lin *bit = X.axpy(h, -2, X.floorL(X.scale(h, Q(1, 2)))); return vI(wrap(X.scale(bit, Q(m)), w), w); } } } break;
      case Instruction::Or: case Instruction::Xor: for (int q = 0; q < 2; q++) { const Lin *c = q ? x : y, *v = q ? y : x; if (c->isConst()) { Z m = c->c0.get_num(); if (m == 0) return vI(v, w); if (op == Instruction::Xor && m == -1) return vI(X.axpy(X.cst(-1), -1, v), w); if (op == Instruction::Xor && m == 1 && v->hl && v->hh && v->lo >= 0 && v->hi <= 1) return vI(X.axpy(X.cst(1), -1, v), w);
            if (m > 0 && v->hl && v->hh && v->lo >= 0 && v->g > 0 && v->g < 62 && m < Z(1) << v->g) return vI(wrap(X.axpy(v, 1, c), w), w); if (m > 0 && v->hl && v->lo >= 0 && v->hh) { unsigned long tz = mpz_scan1(m.get_mpz_t(), 0); if (v->hi < Q(Z(1) << tz)) return vI(wrap(X.axpy(v, 1, c), w), w); } } }
        break;
    }
    Val ca{concI(a, w), nullptr}, cb{concI(b, w), nullptr}; return ibin(op, ca, cb, w);
  }
  Val icmp(unsigned p, const Val &a, const Val &b, int w) {
    if (!a.s && !b.s) { uint64_t x = a.u, y = b.u; int64_t s = sx(x, w), t = sx(y, w); bool r = false; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; } return {r, nullptr}; }
    if (w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { BoolE *x = X.xor_(boolOf(a), boolOf(b)); return vB(p == CmpInst::ICMP_NE ? x : X.not_(x)); }
    if (a.s && a.s->k == S_DBL && !b.s && w == 64) { if (p == CmpInst::ICMP_SLT && b.u == 0) return vB(X.lt0(a.s->l)); if (p == CmpInst::ICMP_SGT && b.u == ~0ull) return vB(X.not_(X.lt0(a.s->l))); if (b.u == 0 && p == CmpInst::ICMP_EQ) return vB(X.eq0(a.s->l)); if (b.u == 0 && p == CmpInst::ICMP_NE) return vB(X.not_(X.eq0(a.s->l))); }
    if (a.s && b.s && a.s->k == S_DBL && b.s->k == S_DBL && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { BoolE *e = X.eq0(X.sub(a.s->l, b.s->l)); return vB(p == CmpInst::ICMP_EQ ? e : X.not_(e)); }
    const Lin *x = linI(a, w), *y = linI(b, w); bool un = p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE; if (un) { x = uns(x, w); y = uns(y, w); }
    const Lin *d = X.sub(x, y);
    switch (p) { case CmpInst::ICMP_EQ: return vB(X.eq0(d)); case CmpInst::ICMP_NE: return vB(X.not_(X.eq0(d))); case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return vB(X.lt0(d)); case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return vB(X.le0(d)); case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return vB(X.lt0(X.scale(d, -1))); default: return vB(X.le0(X.scale(d, -1))); }
  }
  const Lin *absL(const Lin *l) { if (l->hl && l->lo >= 0) return l; if (l->hh && l->hi <= 0) return X.scale(l, -1); return X.ite(X.lt0(l), X.scale(l, -1), l); }
  const Lin *floorD(const Val &v) { const Lin *l = linD(v); bracketInt(l); return X.floorL(l); }
  const Lin *ceilD(const Val &v) { const Lin *l = linD(v); bracketInt(l); return X.scale(X.floorL(X.scale(l, -1)), -1); }
  const Lin *truncL(const Lin *l) { if (l->integral) return l; bracketInt(l); if (l->hl && l->lo >= 0) return X.floorL(l); const Lin *n = X.scale(X.floorL(X.scale(l, -1)), -1); if (l->hh && l->hi <= 0) return n; return X.ite(X.lt0(l), n, X.floorL(l)); }
  Val sel(const Val &c, const Val &a, const Val &b, int bits, int kind) {
    if (!c.s) return (c.u & 1) ? a : b; BoolE *cb = boolOf(c); if (known.count(cb)) return a; if (known.count(X.not_(cb))) return b;
    if (!a.s && !b.s && a.u == b.u) return a; if (a.s && a.s == b.s) return a;
    if (kind == 3) return branch(cb) ? a : b;
    if (bits == 1 && kind == 0) return vB(X.iteB(cb, boolOf(a), boolOf(b)));
    if (kind == 1 || kind == 2) { auto cdok = [&](const Val &v) { return v.s || std::isfinite(kind == 2 ? (double)asF(v.u) : asD(v.u)); }; if (!cdok(a) || !cdok(b) || (a.s && a.s->k != S_DBL) || (b.s && b.s->k != S_DBL)) return branch(cb) ? a : b; return vD(X.ite(cb, linF(a, kind), linF(b, kind)), kind); }
    if ((a.s && a.s->k == S_DBL) || (b.s && b.s->k == S_DBL) || (a.s && a.s->k == S_COMP) || (b.s && b.s->k == S_COMP)) return branch(cb) ? a : b;
    return vI(X.ite(cb, linI(a, bits), linI(b, bits)), bits);
  }
  Val cast(const DInst &d, const Val &v) {
    int w = d.bits, sw = d.sbits;
    switch (d.op) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return v.s ? v : Val{d.kind == 0 ? mask(v.u, w) : v.u, nullptr};
      case Instruction::Trunc: if (!v.s) return {mask(v.u, w), nullptr}; if (v.s->k == S_COMP && w % 8 == 0) { for (auto &p : *v.s->p) if (p.off == 0 && p.size * 8 == w) return {p.u, p.s}; } if (w == 1) { const Lin *l = linI(v, sw); if (l->hl && l->hh && l->lo >= 0 && l->hi <= 1) return vB(X.not_(X.eq0(l))); const Lin *r = X.axpy(l, -2, X.floorL(X.scale(l, Q(1, 2)))); return vB(X.not_(X.eq0(r))); } return vI(wrap(linI(v, sw), w), w);
      case Instruction::ZExt: if (!v.s) return {v.u, nullptr}; if (v.s->k == S_BOOL) return vI(X.ite(v.s->b, X.cst(1), X.cst(0)), w); return vI(uns(linI(v, sw), sw), w);
      case Instruction::SExt: if (!v.s) return {mask(sx(v.u, sw), w), nullptr}; return vI(linI(v, sw), w);
      case Instruction::SIToFP: if (!v.s) { double x = (double)sx(v.u, sw); if (d.kind == 2) return {fU((float)sx(v.u, sw)), nullptr}; return {asU(x), nullptr}; } return rnd(linI(v, sw), d.kind);
      case Instruction::UIToFP: if (!v.s) { if (d.kind == 2) return {fU((float)v.u), nullptr}; return {asU((double)v.u), nullptr}; } if (sw == 1) return vD(X.ite(boolOf(v), X.cst(1), X.cst(0)), d.kind); return rnd(uns(linI(v, sw), sw), d.kind);
      case Instruction::FPToSI: case Instruction::FPToUI: { if (!v.s) { double x = d.skind == 2 ? asF(v.u) : asD(v.u); bool sg = d.op == Instruction::FPToSI; if (sg) { if (w == 64) { if (!(x > -9.3e18 && x < 9.22e18)) return {0x8000000000000000ull, nullptr}; return {(uint64_t)(int64_t)x, nullptr}; } // out-of-range is UB: model x86 cvttsd2si
            if (w == 32) { if (!(x > -2147483649.0 && x < 2147483648.0)) { note("float-to-int conversion out of range"); return {0x80000000ull, nullptr}; } } else if (!(fabs(x) < 9e18)) return {0, nullptr}; return {mask((uint64_t)(int64_t)x, w), nullptr}; } if (!(x > -1.0 && x < 1.8e19)) return {mask((uint64_t)(int64_t)x, w), nullptr}; return {mask((uint64_t)x, w), nullptr}; }
        const Lin *l = truncL(linF(v, d.skind)); Q h = pow2(w - 1); bool sg = d.op == Instruction::FPToSI; Q lo = sg ? Q(-h) : Q(0), hi = sg ? Q(h - 1) : Q(pow2(w) - 1);
        if (!(l->hl && l->hh && l->lo >= lo && l->hi <= hi)) { BoolE *in = X.and_(X.le0(X.axpy(X.cst(lo), -1, l)), X.le0(X.axpy(l, -1, X.cst(hi)))); if (!branch(in)) { note("float-to-int conversion out of range"); return {w == 64 ? 0x8000000000000000ull : mask(0x80000000ull, w), nullptr}; } }
        return vI(sg ? l : wrap(l, w), w); }
      case Instruction::FPTrunc: if (!v.s) return {fU((float)asD(v.u)), nullptr}; return rnd(linF(v, 1), 2);
      case Instruction::FPExt: if (!v.s) return {asU((double)asF(v.u)), nullptr}; return vD(linF(v, 2), 1);
    }
    inc("cast");
  }
  void note(const std::string &s) { notes.push_back(s + " @ " + where()); }
  Val sqrtV(const Val &v) {
    if (!v.s) return {asU(sqrt(asD(v.u))), nullptr}; const Lin *l = linD(v); if (branch(X.lt0(l))) return {asU(NAN), nullptr}; if (l->isConst()) return {asU(sqrt(qToD(l->c0))), nullptr};
    // integer-valued with a small range: split, so the square root is a native constant
    if (l->integral && l->hl && l->hh && l->hi - l->lo <= 400) { int64_t k = concretize(l); return {asU(sqrt((double)k)), nullptr}; }
    auto it = divMemo.find({l, nullptr}); const Lin *q; if (it != divMemo.end()) q = it->second; else { Q hi = Q(sqrt(qToD(l->hi)) * 1.000001 + 1e-9); double cur = sqrt(qToD(X.eval(l))); Atom *a = X.newVar(false, 0, hi, GNONE, Q(cur)); q = X.ofAtom(a); BoolE *d = X.eq0(X.sub(X.mul(q, q), l)); S.add(d); if (!X.eval(d)) { std::vector<Q> m; auto r = S.query(X.T, &m); if (r != z3::sat) inc("sqrt model"); X.model = m; X.epoch++; } divMemo[{l, nullptr}] = q; }
    return rnd(q, 1);
  }
  // ---- run
  Val &R(int i) { return regs[fr.back().base + i]; }
  Val get(int o) { if (o >= 0) return regs[fr.back().base + o]; return fr.back().f->consts[~o]; }
  Val getL(int o, int i) { return get(o >= 0 ? o + i : o - i); }
  void enter(DFunc *f, const Val *args, int n, const DInst *call) {
    decode(f); int base = fr.empty() ? 0 : fr.back().base + fr.back().f->nslots; if ((int)regs.size() < base + f->nslots + 1) regs.resize(base + f->nslots + 1024); for (int i = 0; i < f->nslots; i++) regs[base + i] = {0, nullptr};
    int k = 0; for (auto &a : f->args) for (int q = 0; q < a.second; q++) { if (k < n) regs[base + a.first + q] = args[k]; k++; }
    if (fr.size() > 5000) event("trap", "call depth over 5000"); f->calls++; fr.push_back({f, base, 0, 0, sp, call, -1}); cover[f->bl[0].gid] = 1;
  }
  void popFrame() { Frame &f = fr.back(); if (sp > f.sp) { dropSym(f.sp, sp - f.sp); memset(FL + (f.sp - ARENA), F_NONE, sp - f.sp); } sp = f.sp; fr.pop_back(); }
  void jump(int b) { Frame &f = fr.back(); auto &nb = f.f->bl[b]; if (!nb.phi.empty()) { auto it = nb.phi.find(f.blk); if (it != nb.phi.end()) { auto &mv = it->second.moves; static thread_local std::vector<Val> tmp; tmp.clear(); for (auto &m : mv) tmp.push_back(get(m.second)); for (size_t i = 0; i < mv.size(); i++) regs[f.base + mv[i].first] = tmp[i]; } } f.prevBlk = f.blk; f.blk = b; f.pc = 0; cover[nb.gid] = 1; }
  void unwind() { // transfer to the nearest landing pad
    while (!fr.empty()) { Frame &f = fr.back(); auto &in = f.f->bl[f.blk].in; const DInst *ci = f.pc < (int)in.size() ? &in[f.pc] : nullptr; if (ci && ci->isInvoke) { int b = ci->lv2[0]; // does the pad accept?
        const DInst *lp = nullptr; for (auto &x : f.f->bl[b].in) if (x.op == Instruction::LandingPad) { lp = &x; break; } bool acc = lp && lp->sub; if (lp) for (auto &c : lp->sw) if (c.b == 2 || c.v == 0 || typeMatch(excTi, c.v)) acc = true; if (acc) { jump(b); return; } } popFrame(); }
    throw PathEnd{"uncaught"};
  }
  void throwExc(uint64_t obj, uint64_t ti) { excObj = obj; excTi = ti; excDepthThrow(); }
  void excDepthThrow() { // is there a handler at all?
    try { unwind(); } catch (PathEnd &) { endWhy = "uncaught exception"; Violation v; v.kind = "exception"; v.msg = "uncaught C++ exception escapes"; v.where = thrownAt; v.inputs = inputVals(X.model); confirm(v); viol.push_back(v); throw PathEnd{"exception"}; } }
  std::string thrownAt;
  void throwStd(const char *what) { thrownAt = std::string(what) + " " + where(); uint64_t o = halloc(16, true); throwExc(o, 0x1); }
  void retVal(const std::vector<Val> &v) { const DInst *c = fr.back().call; popFrame(); if (fr.empty()) return; if (c->dst >= 0) for (int i = 0; i < c->nl && i < (int)v.size(); i++) R(c->dst + i) = v[i]; if (c->isInvoke) jump(c->b0); else fr.back().pc++; }
  void callTo(DFunc *f, const DInst &d) {
    static thread_local std::vector<Val> args; args.clear(); for (size_t i = 0; i < d.o.size(); i++) for (int q = 0; q < d.anl[i]; q++) args.push_back(getL(d.o[i], q));
    for (auto &bv : d.byval) { uint64_t a = halloc(bv.second); int ix = 0; for (int k = 0; k < bv.first; k++) ix += d.anl[k]; mcopy(a, concP(args[ix]), bv.second); args[ix] = {a, nullptr}; }
    if (f->ext) { Val r[4] = {{0, nullptr}, {0, nullptr}, {0, nullptr}, {0, nullptr}}; size_t depth = fr.size(); int blk = fr.back().blk, pc = fr.back().pc; std::vector<Val> a2(args); a2.resize(a2.size() + 8, {0, nullptr}); (*f->ext)(*this, a2.data(), (int)args.size(), r); if (fr.size() != depth || fr.back().blk != blk || fr.back().pc != pc) return; if (d.dst >= 0) for (int i = 0; i < d.nl && i < 4; i++) R(d.dst + i) = r[i]; if (d.isInvoke) jump(d.b0); else fr.back().pc++; return; }
    if (f->F->isDeclaration()) inc("unmodelled external function " + demangle(f->name));
    enter(f, args.data(), args.size(), &d);
  }
  void intrinsic(const DInst &d); void exec(DFunc *f);
};

void Run::intrinsic(const DInst &d) {
  auto A = [&](int i) { return get(d.o[i]); }; Val r{0, nullptr}; int w = d.bits, k = d.kind; bool multi = false;
  auto F1 = [&](double (*fn)(double)) -> bool { Val a = A(0); if (a.s) return false; if (k == 2) r = {fU((float)fn(asF(a.u))), nullptr}; else r = {asU(fn(asD(a.u))), nullptr}; return true; };
  switch (d.sub) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concI(A(2), 64), dd = concP(A(0)), ss = concP(A(1)); if (n > (1ull << 40)) event("memory", "memcpy with negative/huge size"); mcopy(dd, ss, n); break; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concI(A(2), 64), dd = concP(A(0)); Val c = A(1); if (n > (1ull << 40)) event("memory", "memset with negative/huge size"); mset(dd, (int)concI(c, 8), n); break; }
    case Intrinsic::fabs: if (!F1(fabs)) r = vD(absL(linF(A(0), k)), k); break;
    case Intrinsic::floor: if (!F1(floor)) { const Lin *l = linF(A(0), k); bracketInt(l); r = vD(X.floorL(l), k); } break;
    case Intrinsic::ceil: if (!F1(ceil)) { bracketInt(linF(A(0), k)); r = vD(X.scale(X.floorL(X.scale(linF(A(0), k), -1)), -1), k); } break;
    case Intrinsic::trunc: if (!F1(trunc)) r = vD(truncL(linF(A(0), k)), k); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: if (!F1(nearbyint)) { const Lin *l = linF(A(0), k); const Lin *h = X.floorL(X.axpy(l, 1, X.cst(Q(1, 2)))); /* ties */ BoolE *tie = X.eq0(X.axpy(X.axpy(l, 1, X.cst(Q(1, 2))), -1, h)); const Lin *odd = X.axpy(h, -2, X.floorL(X.scale(h, Q(1, 2)))); r = vD(X.ite(X.and_(tie, X.not_(X.eq0(odd))), X.axpy(h, -1, X.cst(1)), h), k); } break;
    case Intrinsic::round: if (!F1(round)) { const Lin *l = linF(A(0), k); const Lin *u = X.floorL(X.axpy(l, 1, X.cst(Q(1, 2)))); const Lin *dn = X.scale(X.floorL(X.axpy(X.scale(l, -1), 1, X.cst(Q(1, 2)))), -1); r = vD(X.ite(X.lt0(l), dn, u), k); } break;
    case Intrinsic::sqrt: r = sqrtV(A(0)); break;
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: { Val a = A(0), b = A(1); bool mn = d.sub == Intrinsic::minnum || d.sub == Intrinsic::minimum; Val c = fcmp(mn ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, a, b, k); r = sel(c, a, b, w, k); break; }
    case Intrinsic::copysign: { Val a = A(0), b = A(1); if (!a.s && !b.s) r = {asU(copysign(asD(a.u), asD(b.u))), nullptr}; else { const Lin *l = absL(linF(a, k)); BoolE *ng = b.s ? X.lt0(linF(b, k)) : X.bc(std::signbit(asD(b.u))); r = vD(X.ite(ng, X.scale(l, -1), l), k); } break; }
    case Intrinsic::fmuladd: case Intrinsic::fma: { r = fbin(Instruction::FAdd, fbin(Instruction::FMul, A(0), A(1), k), A(2), k); break; }
    case Intrinsic::pow: { Val a = A(0), b = A(1); if (a.s || b.s) { if (!b.s && asD(b.u) == 2.0) { r = fbin(Instruction::FMul, a, a, 1); break; } inc("symbolic pow"); } r = {asU(pow(asD(a.u), asD(b.u))), nullptr}; break; }
    case Intrinsic::exp: if (!F1(exp)) inc("symbolic exp"); break; case Intrinsic::log: if (!F1(log)) inc("symbolic log"); break; case Intrinsic::log10: if (!F1(log10)) inc("symbolic log10"); break; case Intrinsic::log2: if (!F1(log2)) inc("symbolic log2"); break;
    case Intrinsic::is_fpclass: { Val a = A(0); unsigned m = A(1).u; if (a.s) { unsigned fin = 0x0f8 & 0x1f8; fin = fcFinite; if ((m & fin) == fin) r = {1, nullptr}; else if ((m & fin) == 0) r = {0, nullptr}; else inc("is_fpclass"); } else { double x = asD(a.u); unsigned c = std::isnan(x) ? fcNan : std::isinf(x) ? (x > 0 ? fcPosInf : fcNegInf) : x == 0 ? (std::signbit(x) ? fcNegZero : fcPosZero) : (fabs(x) < 2.2250738585072014e-308 ? (x > 0 ? fcPosSubnormal : fcNegSubnormal) : (x > 0 ? fcPosNormal : fcNegNormal)); r = {(m & c) != 0, nullptr}; } break; }
    case Intrinsic::smax: r = sel(icmp(CmpInst::ICMP_SGT, A(0), A(1), w), A(0), A(1), w, k); break; case Intrinsic::smin: r = sel(icmp(CmpInst::ICMP_SLT, A(0), A(1), w), A(0), A(1), w, k); break;
    case Intrinsic::umax: r = sel(icmp(CmpInst::ICMP_UGT, A(0), A(1), w), A(0), A(1), w, k); break; case Intrinsic::umin: r = sel(icmp(CmpInst::ICMP_ULT, A(0), A(1), w), A(0), A(1), w, k); break;
    case Intrinsic::abs: { Val a = A(0); r = sel(icmp(CmpInst::ICMP_SLT, a, {0, nullptr}, w), ibin(Instruction::Sub, {0, nullptr}, a, w), a, w, k); break; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      multi = true; w = d.sbits; Val a = A(0), b = A(1); unsigned op = (d.sub == Intrinsic::sadd_with_overflow || d.sub == Intrinsic::uadd_with_overflow) ? Instruction::Add : (d.sub == Intrinsic::ssub_with_overflow || d.sub == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul; bool sg = d.sub == Intrinsic::sadd_with_overflow || d.sub == Intrinsic::ssub_with_overflow || d.sub == Intrinsic::smul_with_overflow;
      Val rr = ibin(op, a, b, w); const Lin *x = linI(a, w), *y = linI(b, w); if (!sg) { x = uns(x, w); y = uns(y, w); } const Lin *e = op == Instruction::Add ? X.add(x, y) : op == Instruction::Sub ? X.sub(x, y) : X.mul(x, y); Q lo = sg ? Q(-pow2(w - 1)) : Q(0), hi = sg ? Q(pow2(w - 1) - 1) : Q(pow2(w) - 1); BoolE *ov = X.or_(X.lt0(X.axpy(e, -1, X.cst(lo))), X.lt0(X.axpy(X.cst(hi), -1, e))); R(d.dst) = rr; R(d.dst + 1) = vB(ov); break; }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1); r = sel(icmp(CmpInst::ICMP_ULT, a, b, w), {0, nullptr}, ibin(Instruction::Sub, a, b, w), w, k); break; }
    case Intrinsic::ctpop: r = {(uint64_t)__builtin_popcountll(concI(A(0), w)), nullptr}; break;
    case Intrinsic::ctlz: { uint64_t u = concI(A(0), w); r = {u ? (uint64_t)(__builtin_clzll(u) - (64 - w)) : (uint64_t)w, nullptr}; break; }
    case Intrinsic::cttz: { uint64_t u = concI(A(0), w); r = {u ? (uint64_t)__builtin_ctzll(u) : (uint64_t)w, nullptr}; break; }
    case Intrinsic::bswap: { uint64_t u = __builtin_bswap64(concI(A(0), w)); r = {u >> (64 - w), nullptr}; break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t a = concI(A(0), w), b = concI(A(1), w), c = concI(A(2), w) % w; uint64_t v; if (d.sub == Intrinsic::fshl) v = c ? (a << c) | (b >> (w - c)) : a; else v = c ? (a << (w - c)) | (b >> c) : b; r = {mask(v, w), nullptr}; break; }
    case Intrinsic::expect: r = A(0); break; case Intrinsic::objectsize: r = {~0ull, nullptr}; break; case Intrinsic::is_constant: r = {0, nullptr}; break; case Intrinsic::stacksave: r = {sp, nullptr}; break; case Intrinsic::stackrestore: break;
    case Intrinsic::eh_typeid_for: r = {(A(0).u & 0x7fffffff) | 1, nullptr}; break; case Intrinsic::trap: event("trap", "llvm.trap reached"); case Intrinsic::vastart: case Intrinsic::vaend: break;
    case Intrinsic::threadlocal_address: r = A(0); break; case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: r = A(0); break;
    default: inc("intrinsic " + d.callee->name);
  }
  if (!multi && d.dst >= 0) R(d.dst) = r; if (d.isInvoke) jump(d.b0); else fr.back().pc++;
}

void Run::exec(DFunc *f0) {
  size_t floor = fr.size(); enter(f0, nullptr, 0, nullptr);
  while (fr.size() > floor) {
    Frame &f = fr.back(); auto &blk = f.f->bl[f.blk]; if (f.pc >= (int)blk.in.size()) inc("fell off block"); const DInst &d = blk.in[f.pc];
    if (++steps > O.maxSteps) event("hang", "no termination within the step limit"); if ((steps & 0xfffff) == 0 && nowS() - t0 > O.runWall) throw Inconclusive("path wall limit");
    switch (d.op) {
      case Instruction::Ret: { static thread_local std::vector<Val> v; v.clear(); for (int i = 0; i < d.nl; i++) v.push_back(getL(d.o[0], i)); if (fr.size() == floor + 1) { popFrame(); return; } retVal(v); continue; }
      case Instruction::Br: if (d.o.empty()) jump(d.b0); else { Val c = get(d.o[0]); bool t = c.s ? branch(boolOf(c)) : (c.u & 1); jump(t ? d.b0 : d.b1); } continue;
      case Instruction::Switch: { Val c = get(d.o[0]); int tgt = d.b0; if (!c.s) { for (auto &s : d.sw) if (s.v == c.u) { tgt = s.b; break; } } else { for (auto &s : d.sw) if (branch(boolOf(icmp(CmpInst::ICMP_EQ, c, {s.v, nullptr}, d.bits)))) { tgt = s.b; break; } } jump(tgt); continue; }
      case Instruction::Unreachable: event("trap", "unreachable executed");
      case Instruction::Call: case Instruction::Invoke: {
        if (d.sub == 99999) { f.pc++; continue; } DFunc *cf = d.callee; if (cf && d.sub) { intrinsic(d); continue; }
        if (!cf) { uint64_t a = concP(get(d.b1)); if (a < FBASE || (a - FBASE) / 16 >= funcs.size() || (a & 15)) event("memory", "call through an invalid function pointer"); cf = funcs[(a - FBASE) / 16]; }
        callTo(cf, d); continue; }
      case Instruction::Resume: { if (fr.size() == 0) throw PathEnd{"resume"}; popFrame(); excDepthThrow(); continue; }
      case Instruction::LandingPad: { uint64_t selr = 0; for (auto &c : d.sw) { if (c.b == 1 && (c.v == 0 || typeMatch(excTi, c.v))) { selr = (c.v & 0x7fffffff) | 1; if (c.v == 0) selr = 1; break; } } R(d.dst) = {excObj, nullptr}; if (d.nl > 1) R(d.dst + 1) = {selr, nullptr}; f.pc++; continue; }
      case Instruction::Alloca: { uint64_t n = d.coff * concI(get(d.o[0]), 64); uint64_t a = (sp + 16 + d.sub - 1) / d.sub * d.sub; if (a + n + 16 > BIG_LO) inc("model stack overflow"); memset((void *)a, PATTERN, n); memset(FL + (a - ARENA), F_UNINIT, n); sp = a + n + 16; R(d.dst) = {a, nullptr}; f.pc++; continue; }
      case Instruction::Load: { uint64_t a = concP(get(d.o[0])); for (auto &l : d.lv) { Val v = load(a + l.off, l); R(d.dst + (&l - &d.lv[0])) = v; } f.pc++; continue; }
      case Instruction::Store: { uint64_t a = concP(get(d.o[1])); for (size_t i = 0; i < d.lv.size(); i++) store(a + d.lv[i].off, getL(d.o[0], i), d.lv[i]); f.pc++; continue; }
      case Instruction::GetElementPtr: { Val b = get(d.o[0]); uint64_t a = concP(b) + d.coff; for (size_t i = 0; i < d.idx.size(); i++) { Val ix = get(d.idx[i].first); int64_t v = ix.s ? concretize(linI(ix, d.lv2[i])) : sx(ix.u, d.lv2[i]); a += v * d.idx[i].second; } R(d.dst) = {a, nullptr}; f.pc++; continue; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: for (int i = 0; i < d.nl; i++) { Val v = fbin(d.op, getL(d.o[0], i), getL(d.o[1], i), d.kind); R(d.dst + i) = v; } fr.back().pc++; continue;
      case Instruction::FNeg: for (int i = 0; i < d.nl; i++) R(d.dst + i) = fneg(getL(d.o[0], i), d.kind); f.pc++; continue;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        if (d.bits == 255) inc("wide integer"); for (int i = 0; i < d.nl; i++) { Val v = ibin(d.op, getL(d.o[0], i), getL(d.o[1], i), d.bits); R(d.dst + i) = v; } f.pc++; continue;
      case Instruction::ICmp: for (int i = 0; i < d.nl; i++) { Val v = icmp(d.sub, getL(d.o[0], i), getL(d.o[1], i), d.sbits); R(d.dst + i) = v; } f.pc++; continue;
      case Instruction::FCmp: for (int i = 0; i < d.nl; i++) { Val v = fcmp(d.sub, getL(d.o[0], i), getL(d.o[1], i), d.skind); R(d.dst + i) = v; } f.pc++; continue;
      case Instruction::Select: for (int i = 0; i < d.nl; i++) { Val v = sel(getL(d.o[0], d.b0 > 1 ? i : 0), getL(d.o[1], i), getL(d.o[2], i), d.lv[i].bits, d.lv[i].kind); R(d.dst + i) = v; } f.pc++; continue;
      case Instruction::ExtractValue: for (int i = 0; i < d.nl; i++) { Val v = getL(d.o[0], i); R(d.dst + i) = v; } f.pc++; continue;
      case Instruction::InsertValue: { for (int i = 0; i < d.nl; i++) { Val v = getL(d.o[0], i); R(d.dst + i) = v; } for (int i = 0; i < d.b1; i++) { Val v = getL(d.o[1], i); R(d.dst + d.b0 + i) = v; } f.pc++; continue; }
      case Instruction::ExtractElement: { uint64_t ix = concI(get(d.o[1]), 64); Val v = getL(d.o[0], ix); R(d.dst) = v; f.pc++; continue; }
      case Instruction::InsertElement: { uint64_t ix = concI(get(d.o[2]), 64); std::vector<Val> t; for (int i = 0; i < d.nl; i++) t.push_back(getL(d.o[0], i)); t[ix] = get(d.o[1]); for (int i = 0; i < d.nl; i++) R(d.dst + i) = t[i]; f.pc++; continue; }
      case Instruction::ShuffleVector: { std::vector<Val> t; for (int m : d.lv2) { if (m < 0) t.push_back({0, nullptr}); else t.push_back(m < d.b0 ? getL(d.o[0], m) : getL(d.o[1], m - d.b0)); } for (int i = 0; i < d.nl; i++) R(d.dst + i) = t[i]; f.pc++; continue; }
      case Instruction::Freeze: for (int i = 0; i < d.nl; i++) { Val v = getL(d.o[0], i); R(d.dst + i) = v; } f.pc++; continue;
      case Instruction::BitCast: if (d.nl != 1 || d.o.empty()) { std::vector<Leaf> sl; leavesOf(d.I->getOperand(0)->getType(), 0, sl); if ((int)sl.size() != d.nl) { // vector<->scalar: through memory
            uint64_t a = halloc(64); for (size_t i = 0; i < sl.size(); i++) store(a + sl[i].off, getL(d.o[0], i), sl[i]); for (int i = 0; i < d.nl; i++) { Val v = load(a + d.lv[i].off, d.lv[i]); R(d.dst + i) = v; } f.pc++; continue; } }
        else { std::vector<Leaf> sl; leavesOf(d.I->getOperand(0)->getType(), 0, sl); if (sl.size() != 1) { uint64_t a = halloc(64); for (size_t i = 0; i < sl.size(); i++) store(a + sl[i].off, getL(d.o[0], i), sl[i]); Val v = load(a, d.lv[0]); R(d.dst) = v; f.pc++; continue; } }
        for (int i = 0; i < d.nl; i++) { Val v = getL(d.o[0], i); R(d.dst + i) = v; } f.pc++; continue;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        if (d.bits == 255 || d.sbits == 255) inc("wide integer"); for (int i = 0; i < d.nl; i++) { Val v = cast(d, getL(d.o[0], i)); R(d.dst + i) = v; } f.pc++; continue;
      case Instruction::Fence: f.pc++; continue;
      default: inc(std::string("instruction ") + d.I->getOpcodeName());
    }
  }
}

// ------------------------------------------------------------------ external functions
static std::string sgetRepl(const std::string &inFile, int *code) {
  std::string cmd = O.replay + " " + inFile + " 2>&1"; FILE *p = popen(cmd.c_str(), "r"); std::string s; char b[4096]; size_t n; while (p && (n = fread(b, 1, sizeof b, p)) > 0) if (s.size() < 4000) s.append(b, n); int rc = p ? pclose(p) : -1; *code = WIFEXITED(rc) ? WEXITSTATUS(rc) : 128; return s;
}
static uint64_t hashName(const std::string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (uint8_t)c) * 1099511628211ull; return h; }
#define EXT(n) exts[n] = [](Run & R, Val * a, int n_, Val *r)
static Leaf LV8{nullptr, 0, 8, 64, 0}, LV4{nullptr, 0, 4, 32, 0}, LV1{nullptr, 0, 1, 8, 0}, LVD{nullptr, 0, 8, 64, 1};
static void regExts() {
  auto al = [](Run &R, Val *a, int, Val *r) { uint64_t n = R.concI(a[0], 64); r[0] = {R.halloc(n), nullptr}; };
  for (auto n : {"malloc", "_Znwm", "_Znam"}) exts[n] = al;
  exts["_ZnwmSt11align_val_t"] = al; exts["_ZnamSt11align_val_t"] = al; exts["_ZnwmRKSt9nothrow_t"] = al; exts["_ZnamRKSt9nothrow_t"] = al; exts["__cxa_allocate_exception"] = al;
  auto fr = [](Run &R, Val *a, int, Val *) { R.hfree(R.concP(a[0])); };
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "__cxa_free_exception"}) exts[n] = fr;
  EXT("calloc") { uint64_t n = R.concI(a[0], 64) * R.concI(a[1], 64); r[0] = {R.halloc(n, true), nullptr}; };
  EXT("realloc") { uint64_t p = R.concP(a[0]), n = R.concI(a[1], 64); uint64_t q = R.halloc(n); if (p) { uint64_t o = R.live.count(p) ? R.live[p] : 0; if (!o && !R.live.count(p)) R.event("memory", "realloc of invalid pointer"); R.mcopy(q, p, std::min(o, n)); R.hfree(p); } r[0] = {q, nullptr}; };
  auto mc = [](Run &R, Val *a, int, Val *r) { uint64_t n = R.concI(a[2], 64); if (n > (1ull << 40)) R.event("memory", "memcpy with negative/huge size"); R.mcopy(R.concP(a[0]), R.concP(a[1]), n); r[0] = a[0]; };
  for (auto n : {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}) exts[n] = mc;
  auto ms = [](Run &R, Val *a, int, Val *r) { uint64_t n = R.concI(a[2], 64); if (n > (1ull << 40)) R.event("memory", "memset with negative/huge size"); R.mset(R.concP(a[0]), R.concI(a[1], 32) & 255, n); r[0] = a[0]; };
  exts["memset"] = ms; exts["__memset_chk"] = ms;
  auto mcmp = [](Run &R, Val *a, int, Val *r) { uint64_t x = R.concP(a[0]), y = R.concP(a[1]), n = R.concI(a[2], 64); for (uint64_t i = 0; i < n; i++) { Val p = R.load(x + i, LV1), q = R.load(y + i, LV1); uint8_t u = R.concI(p, 8), v = R.concI(q, 8); if (u != v) { r[0] = {Run::mask((uint64_t)(int64_t)(u < v ? -1 : 1), 32), nullptr}; return; } } r[0] = {0, nullptr}; };
  exts["memcmp"] = mcmp; exts["bcmp"] = mcmp;
  EXT("memchr") { uint64_t x = R.concP(a[0]), c = R.concI(a[1], 32) & 255, n = R.concI(a[2], 64); for (uint64_t i = 0; i < n; i++) if (R.concI(R.load(x + i, LV1), 8) == c) { r[0] = {x + i, nullptr}; return; } r[0] = {0, nullptr}; };
  EXT("strlen") { r[0] = {R.cstr(R.concP(a[0])).size(), nullptr}; };
  EXT("strcmp") { int c = R.cstr(R.concP(a[0])).compare(R.cstr(R.concP(a[1]))); r[0] = {Run::mask((uint64_t)(int64_t)c, 32), nullptr}; };
  EXT("strcpy") { std::string s = R.cstr(R.concP(a[1])); uint64_t d = R.concP(a[0]); R.chkRange(d, s.size() + 1, true); R.mset(d, 0, s.size() + 1); memcpy((void *)d, s.c_str(), s.size() + 1); r[0] = a[0]; };
  EXT("strdup") { std::string s = R.cstr(R.concP(a[0])); uint64_t d = R.halloc(s.size() + 1, true); memcpy((void *)d, s.c_str(), s.size() + 1); r[0] = {d, nullptr}; };
  auto nop = [](Run &, Val *, int, Val *r) { r[0] = {0, nullptr}; };
  for (auto n : {"printf", "puts", "putchar", "fflush", "vprintf", "vfprintf", "__printf_chk", "perror", "setbuf", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_atexit", "atexit", "__cxa_guard_release", "__cxa_guard_abort", "srand", "__cxa_call_terminate", "_ZSt21ios_base_library_initv"}) exts[n] = nop;
  // text written to the handle of vs_out_open is kept: numbers stay expressions (placeholder \1, values in order)
  exts["fprintf"] = [](Run &R, Val *a, int n, Val *r) { R.outFmt(a, n, 1); r[0] = {1, nullptr}; }; exts["__fprintf_chk"] = [](Run &R, Val *a, int n, Val *r) { R.outFmt(a, n, 2); r[0] = {1, nullptr}; };
  EXT("fwrite") { if (!a[3].s && a[3].u && a[3].u == R.outH) { uint64_t p = R.concP(a[0]), k = R.concI(a[1], 64) * R.concI(a[2], 64); for (uint64_t i = 0; i < k; i++) R.outText += (char)R.concI(R.load(p + i, LV1), 8); } r[0] = a[2]; };
  EXT("fputs") { if (!a[1].s && a[1].u && a[1].u == R.outH) R.outText += R.cstr(R.concP(a[0])); r[0] = {1, nullptr}; };
  EXT("fputc") { if (!a[1].s && a[1].u && a[1].u == R.outH) R.outText += (char)R.concI(a[0], 32); r[0] = a[0]; }; exts["putc"] = exts["fputc"]; exts["_IO_putc"] = exts["fputc"];
  // one input file: the bytes given to vs_file
  EXT("vs_file") { R.inP = R.concP(a[0]); R.inN = R.concI(a[1], 64); uint64_t d = R.halloc(16, true); memcpy((void *)d, "vs:file", 8); r[0] = {d, nullptr}; };
  EXT("fopen") { std::string nm = R.cstr(R.concP(a[0])); if (nm != "vs:file") { r[0] = {0, nullptr}; return; } R.inPos = 0; R.inH = R.halloc(256, true); r[0] = {R.inH, nullptr}; }; exts["fopen64"] = exts["fopen"];
  EXT("fread") { uint64_t p = R.concP(a[0]), sz = R.concI(a[1], 64), k = R.concI(a[2], 64); if (R.concP(a[3]) != R.inH || !R.inH) R.event("memory", "read from a file that is not open"); uint64_t left = R.inN - R.inPos, got = sz ? std::min(k, left / sz) : 0; uint64_t by = got < k ? std::min(left, sz * k) : got * sz; if (by) R.mcopy(p, R.inP + R.inPos, by); R.inPos += by; r[0] = {got, nullptr}; };
  EXT("fclose") { uint64_t h = R.concP(a[0]); if (h && h == R.inH) { R.hfree(h); R.inH = 0; } r[0] = {0, nullptr}; };
  EXT("vs_out_open") { if (!R.outH) R.outH = R.halloc(256, true); R.outText.clear(); R.outVals.clear(); r[0] = {R.outH, nullptr}; };
  EXT("vs_out_lines") { std::string k = R.cstr(R.concP(a[0])); int c = 0; size_t p = 0; while (p < R.outText.size()) { size_t e = R.outText.find('\n', p); if (e == std::string::npos) e = R.outText.size(); if (R.outText.substr(p, e - p).find(k) != std::string::npos) c++; p = e + 1; } r[0] = {(uint64_t)c, nullptr}; };
  EXT("vs_out_key") { std::string k = R.cstr(R.concP(a[0])); size_t p = R.outText.rfind(k); if (p == std::string::npos) { r[0] = {0, nullptr}; return; } size_t b = p ? R.outText.rfind('\n', p - 1) : std::string::npos; b = b == std::string::npos ? 0 : b + 1; r[0] = {(uint64_t)(unsigned char)R.outText[b], nullptr}; };
  EXT("vs_out_value") { std::string k = R.cstr(R.concP(a[0])); size_t p = R.outText.rfind(k); if (p == std::string::npos) { r[0] = {Run::asU(-1e300), nullptr}; return; } p += k.size(); if (R.outText[p] == 1) { size_t ix = std::count(R.outText.begin(), R.outText.begin() + p, '\1'); r[0] = R.outVals[ix]; } else { std::string t = R.outText.substr(p, 40); r[0] = {Run::asU(t.compare(0, 4, "true") == 0 ? 1.0 : t.compare(0, 5, "false") == 0 ? 0.0 : strtod(t.c_str(), nullptr)), nullptr}; } };
  EXT("sprintf") { uint64_t d = R.concP(a[0]); R.mset(d, 0, 1); r[0] = {0, nullptr}; }; exts["__sprintf_chk"] = exts["sprintf"]; exts["snprintf"] = exts["sprintf"]; exts["__snprintf_chk"] = exts["sprintf"];
  // std::ostream: output formatting is not the subject
  for (auto n : {"_ZNSolsEi", "_ZNSolsEd", "_ZNSolsEm", "_ZNSolsEl", "_ZNSolsEj", "_ZNSolsEb", "_ZNSolsEPKv", "_ZNSo9_M_insertIdEERSoT_", "_ZNSo9_M_insertIbEERSoT_", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertIPKvEERSoT_", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZNSo3putEc", "_ZNSo5flushEv", "_ZNSolsEPFRSoS_E"}) exts[n] = [](Run &, Val *a, int, Val *r) { r[0] = a[0]; };
  EXT("_ZNKSt5ctypeIcE13_M_widen_initEv") { r[0] = {0, nullptr}; };
  EXT("_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc") { r[0] = a[1]; };
  EXT("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate") {};
  EXT("_ZSt16__throw_bad_castv") { R.throwStd("std::bad_cast"); };
  // math
  struct M1 { const char *n; double (*f)(double); };
  static const M1 m1[] = {{"exp", exp}, {"log", log}, {"log10", log10}, {"log2", log2}, {"cbrt", cbrt}, {"sin", sin}, {"cos", cos}, {"tan", tan}, {"atan", atan}, {"log1p", log1p}, {"expm1", expm1}};
  for (auto &m : m1) { auto f = m.f; std::string nm = m.n; exts[nm] = [f, nm](Run &R, Val *a, int, Val *r) { if (a[0].s) R.inc("symbolic " + nm); r[0] = {Run::asU(f(Run::asD(a[0].u))), nullptr}; }; }
  EXT("sqrt") { r[0] = R.sqrtV(a[0]); };
  EXT("floor") { if (!a[0].s) r[0] = {Run::asU(floor(Run::asD(a[0].u))), nullptr}; else r[0] = R.vD(R.floorD(a[0])); };
  EXT("ceil") { if (!a[0].s) r[0] = {Run::asU(ceil(Run::asD(a[0].u))), nullptr}; else r[0] = R.vD(R.ceilD(a[0])); };
  EXT("fabs") { if (!a[0].s) r[0] = {Run::asU(fabs(Run::asD(a[0].u))), nullptr}; else r[0] = R.vD(R.absL(R.linD(a[0]))); };
  EXT("trunc") { if (!a[0].s) r[0] = {Run::asU(trunc(Run::asD(a[0].u))), nullptr}; else r[0] = R.vD(R.truncL(R.linD(a[0]))); };
  EXT("round") { if (!a[0].s) r[0] = {Run::asU(round(Run::asD(a[0].u))), nullptr}; else { const Lin *l = R.linD(a[0]); const Lin *u = R.X.floorL(R.X.axpy(l, 1, R.X.cst(Q(1, 2)))); const Lin *dn = R.X.scale(R.X.floorL(R.X.axpy(R.X.scale(l, -1), 1, R.X.cst(Q(1, 2)))), -1); r[0] = R.vD(R.X.ite(R.X.lt0(l), dn, u)); } };
  EXT("pow") { if (a[0].s || a[1].s) { if (!a[1].s && Run::asD(a[1].u) == 2.0) { r[0] = R.fbin(Instruction::FMul, a[0], a[0], 1); return; } R.inc("symbolic pow"); } r[0] = {Run::asU(pow(Run::asD(a[0].u), Run::asD(a[1].u))), nullptr}; };
  EXT("fmod") { if (a[0].s || a[1].s) { const Lin *x = R.linD(a[0]); if (a[1].s) R.inc("symbolic fmod"); Q c(Run::asD(a[1].u)); const Lin *q = R.truncL(R.X.scale(x, 1 / c)); r[0] = R.rnd(R.X.axpy(x, -c, q), 1); return; } r[0] = {Run::asU(fmod(Run::asD(a[0].u), Run::asD(a[1].u))), nullptr}; };
  EXT("modf") { if (a[0].s) { const Lin *x = R.linD(a[0]); const Lin *t = R.truncL(x); R.store(R.concP(a[1]), R.vD(t), LVD); r[0] = R.rnd(R.X.sub(x, t), 1); return; } double ip, f = modf(Run::asD(a[0].u), &ip); R.store(R.concP(a[1]), {Run::asU(ip), nullptr}, LVD); r[0] = {Run::asU(f), nullptr}; };
  EXT("abs") { Val z{0, nullptr}; r[0] = R.sel(R.icmp(CmpInst::ICMP_SLT, a[0], z, 32), R.ibin(Instruction::Sub, z, a[0], 32), a[0], 32, 0); };
  EXT("_Z10CoinFinited") { if (a[0].s) r[0] = {1, nullptr}; else { double d = Run::asD(a[0].u); r[0] = {d != 1.7976931348623157e308 && d != -1.7976931348623157e308 && std::isfinite(d), nullptr}; } };
  EXT("_Z9CoinIsnand") { if (a[0].s) r[0] = {0, nullptr}; else r[0] = {std::isnan(Run::asD(a[0].u)), nullptr}; };
  // process control
  EXT("abort") { R.event("abort", "abort() called"); }; EXT("exit") { R.event("abort", "exit() called"); };
  EXT("__assert_fail") { R.event("abort", "assertion failed: " + R.cstr(R.concP(a[0]))); };
  EXT("__cxa_pure_virtual") { R.event("abort", "pure virtual call"); }; EXT("_ZSt9terminatev") { R.event("abort", "std::terminate"); }; EXT("__stack_chk_fail") { R.event("memory", "stack smashing"); };
  // time: a monotone environment stub, frozen
  EXT("gettimeofday") { uint64_t p = R.concP(a[0]); if (p) R.mset(p, 0, 16); r[0] = {0, nullptr}; }; EXT("clock") { r[0] = {0, nullptr}; }; EXT("time") { r[0] = {0, nullptr}; }; EXT("getrusage") { R.mset(R.concP(a[1]), 0, 144); r[0] = {0, nullptr}; }; EXT("clock_gettime") { R.mset(R.concP(a[1]), 0, 16); r[0] = {0, nullptr}; };
  EXT("getenv") { r[0] = {0, nullptr}; };
  EXT("_ZNSt6chrono3_V212steady_clock3nowEv") { r[0] = {0, nullptr}; }; EXT("_ZNSt6chrono3_V212system_clock3nowEv") { r[0] = {0, nullptr}; };
  // exceptions
  EXT("__cxa_throw") { R.thrownAt = R.where(); R.throwExc(R.concP(a[0]), R.concP(a[1])); };
  EXT("__cxa_begin_catch") { R.caught.push_back({R.excObj, R.excTi}); r[0] = a[0]; }; EXT("__cxa_end_catch") { if (!R.caught.empty()) R.caught.pop_back(); }; EXT("__cxa_get_exception_ptr") { r[0] = a[0]; };
  EXT("__cxa_rethrow") { if (R.caught.empty()) R.event("abort", "rethrow without exception"); auto c = R.caught.back(); R.thrownAt = R.where(); R.throwExc(c.first, c.second); };
  EXT("__cxa_guard_acquire") { uint64_t g = R.concP(a[0]); uint8_t b = *(uint8_t *)g; if (b) r[0] = {0, nullptr}; else { *(uint8_t *)g = 1; r[0] = {1, nullptr}; } };
  EXT("__dynamic_cast") { uint64_t p = R.concP(a[0]); if (!p) { r[0] = {0, nullptr}; return; } uint64_t vt = R.rd64(p); uint64_t ti = R.rd64(vt - 8); int64_t top = (int64_t)R.rd64(vt - 16); r[0] = {R.typeMatch(ti, R.concP(a[2])) ? p + top : 0, nullptr}; };
  for (auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "__cxa_throw_bad_array_new_length", "_ZSt19__throw_logic_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc"}) { std::string nm = n; exts[n] = [nm](Run &R, Val *, int, Val *) { R.throwStd(nm.c_str()); }; }
  // ---- verification API
  EXT("vs_int") { std::string nm = R.cstr(R.concP(a[0])); int lo = (int)Run::sx(R.concI(a[1], 32), 32), hi = (int)Run::sx(R.concI(a[2], 32), 32); if (lo > hi) throw PathEnd{"empty range"}; if (lo == hi) { Atom *v = R.X.newVar(true, lo, hi, 0, Q(lo)); R.inputs.push_back({nm, v}); r[0] = {Run::mask((uint64_t)(int64_t)lo, 32), nullptr}; return; }
    long span = (long)hi - lo + 1; Q val = lo + (long)((hashName(nm) * 2654435761u + O.seed * 977 + R.inputs.size() * 7) % (unsigned long)span); Atom *v = R.X.newVar(true, lo, hi, 0, val); R.inputs.push_back({nm, v}); r[0] = R.vI(R.X.ofAtom(v), 32); };
  EXT("vs_real") { std::string nm = R.cstr(R.concP(a[0])); double lo = Run::asD(a[1].u), hi = Run::asD(a[2].u); int g = (int)Run::sx(R.concI(a[3], 32), 32); Q L(lo), H(hi);
    if (g >= -16) { Q sc = pow2(g); Z kl = qceil(L / sc), kh = qfloor(H / sc); if (kl > kh) throw PathEnd{"empty range"}; Z span = kh - kl + 1; Z off = Z((unsigned long)(hashName(nm) * 2654435761u + O.seed * 977 + R.inputs.size() * 7)) % span; Atom *v = R.X.newVar(true, Q(kl), Q(kh), 0, Q(kl + off)); R.inputs.push_back({nm, v, g}); r[0] = R.vD(R.X.scale(R.X.ofAtom(v), sc)); return; }
    Q val = L + (H - L) * (long)((hashName(nm) + O.seed * 31 + R.inputs.size() * 5) % 9) / 8; Atom *v = R.X.newVar(false, L, H, g, val); R.inputs.push_back({nm, v}); r[0] = R.vD(R.X.ofAtom(v)); };
  EXT("vs_assume") { R.assume(R.boolOf(a[0])); };
  EXT("vs_check") { R.check(R.boolOf(a[0]), R.cstr(R.concP(a[1]))); };
  EXT("vs_reach") { R.st.reach[R.cstr(R.concP(a[0]))]++; };
  EXT("vs_pick") { r[0] = {R.concI(a[0], 32), nullptr}; }; // case split on every feasible value
  EXT("vs_obs") { R.observed.push_back({R.cstr(R.concP(a[0])), a[1]}); R.obsKind.push_back(1); };
  EXT("vs_obs_int") { R.observed.push_back({R.cstr(R.concP(a[0])), a[1]}); R.obsKind.push_back(0); };
  EXT("vs_end") { throw PathEnd{"end"}; };
  EXT("vs_live_bytes") { r[0] = {(uint64_t)R.liveBytes, nullptr}; };
  EXT("vs_live_blocks") { r[0] = {(uint64_t)R.live.size(), nullptr}; };
  EXT("vs_symbolic") { r[0] = {1, nullptr}; };
  EXT("vs_mulmode") { R.rmode = (int)R.concI(a[0], 32); };
  EXT("vs_ite") { r[0] = R.sel(R.vB(R.boolOf(a[0])), a[1], a[2], 64, 1); };
  EXT("vs_known") { BoolE *b = R.boolOf(a[0]); r[0] = {0, nullptr}; if (b == R.X.T || R.known.count(b)) r[0].u = 1; };
}

// ------------------------------------------------------------------ worker / coordinator
static void wr(int fd, const std::string &s) { uint32_t n = s.size(); std::string b((char *)&n, 4); b += s; size_t o = 0; while (o < b.size()) { ssize_t k = write(fd, b.data() + o, b.size() - o); if (k <= 0) { if (errno == EINTR) continue; _exit(0); } o += k; } }
static bool rd(int fd, std::string &s) { uint32_t n; size_t o = 0; while (o < 4) { ssize_t k = read(fd, (char *)&n + o, 4 - o); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } o += k; } s.resize(n); o = 0; while (o < n) { ssize_t k = read(fd, &s[o], n - o); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } o += k; } return true; }
static std::string serJob(const Job &j) { std::string s = "D"; for (auto &d : j.dec) { if (d.val == INT64_MIN) s += d.taken ? "1" : "0"; else s += (d.taken ? "=" : "!") + std::to_string(d.val) + ";"; } s += "\nM"; for (auto &q : j.model) s += q.get_str() + ","; s += "\n"; return s; }
static Job parseJob(const char *&p) { Job j; p++; while (*p != '\n') { if (*p == '1' || *p == '0') { j.dec.push_back({*p == '1', INT64_MIN}); p++; } else { bool t = *p == '='; char *e; int64_t v = strtoll(p + 1, &e, 10); j.dec.push_back({t, v}); p = e + 1; } } p++; p++; while (*p != '\n') { const char *e = strchr(p, ','); j.model.emplace_back(std::string(p, e - p)); p = e + 1; } p++; return j; }
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }

static DFunc *mainF; static std::vector<DFunc *> ctors; static int resetEnd = 0;
struct RunResult { std::vector<Job> jobs; std::vector<Violation> viol; std::string inconclusive, end; std::string sample; std::vector<std::string> notes; };
static RunResult runJob(Job j, SolverStats &ss, RunStats &rs) {
  memcpy((void *)ARENA, globImg.data(), globImg.size()); memcpy(FL, globFl.data(), globFl.size()); RunResult res; bool normal = false;
  Run R(std::move(j), ss, rs);
  try { for (auto *c : ctors) R.exec(c); R.exec(mainF); res.end = "done"; normal = true; }
  catch (Inconclusive &e) { res.inconclusive = e.what(); res.end = "inconclusive"; } catch (PathEnd &e) { res.end = e.why; if (e.why == "end") normal = true; } catch (z3::exception &e) { res.inconclusive = std::string("z3: ") + e.msg(); res.end = "inconclusive"; }
  rs.steps += R.steps; res.jobs = std::move(R.newJobs); res.viol = std::move(R.viol); for (auto &n : R.notes) res.notes.push_back(n); if (R.uninitReads) res.notes.push_back("uninitialised read @ " + R.uninitWhere);
  if (normal && !R.observed.empty()) { std::string s; for (auto &p : R.inputVals(R.X.model)) s += "I " + p.first + " " + p.second + "\n"; for (size_t i = 0; i < R.observed.size(); i++) { Val v = R.observed[i].second; char b[64]; if (R.obsKind[i]) { double d = v.s ? (v.s->k == S_DBL ? qToD(R.X.eval(v.s->l)) : NAN) : Run::asD(v.u); snprintf(b, sizeof b, "%.12g", d); } else { long d = v.s ? (long)(v.s->k == S_BOOL ? R.X.eval(v.s->b) : R.X.eval(R.linI(v, 32)).get_num().get_si()) : (long)Run::sx(v.u, 32); snprintf(b, sizeof b, "%ld", d); } s += "O " + R.observed[i].first + " " + b + "\n"; } res.sample = s; }
  // clear flags of heap/stack used
  R.bigClean();
  if (R.heap > globalsEnd) memset(FL + (globalsEnd - ARENA), 0, R.heap - globalsEnd + 64); uint64_t s0 = ARENA + STACK_OFF; if (R.sp > s0) memset(FL + STACK_OFF, 0, R.sp - s0 + 4096); for (auto &s : R.syms) if (s.p) delete s.p;
  return res;
}
static void workerLoop(int fd) {
  prctl(PR_SET_PDEATHSIG, SIGKILL); ZC = new z3::context(); int since = 0; std::string in;
  while (rd(fd, in)) {
    if (in[0] == 'Q') break; const char *p = in.c_str(); Job j = parseJob(p); SolverStats ss; RunStats rs; if (++since > 300) { delete ZC; ZC = new z3::context(); since = 0; }
    size_t nd = j.dec.size(); (void)nd; RunResult r = runJob(std::move(j), ss, rs);
    std::ostringstream o; o << "S " << ss.sat << " " << ss.unsat << " " << ss.unknown << " " << ss.time << " " << ss.maxq << " " << rs.steps << " " << rs.forks << " " << rs.checks << " " << rs.checksUnsat << " " << rs.checksTriv << " " << rs.checksUnknown << " " << rs.branchUnknown << " " << rs.concretize << " " << rs.assumes << "\n";
    o << "E " << r.end << "\n"; if (!r.inconclusive.empty()) { std::string t = r.inconclusive; for (auto &c : t) if (c == '\n') c = ' '; o << "U " << t << "\n"; }
    for (auto &x : rs.reach) o << "R " << x.second << " " << x.first << "\n"; for (auto &x : rs.checkMsg) o << "C " << x.second << " " << x.first << "\n"; for (auto &n : r.notes) o << "N " << n << "\n";
    for (auto &v : r.viol) { o << "V " << v.confirmed << " " << v.kind << "|" << v.msg << "|" << v.where << "\n"; for (auto &q : v.inputs) o << "I " << q.first << " " << q.second << "\n"; std::string t = v.replayOut; for (auto &c : t) if (c == '\n') c = '\\'; o << "O " << t << "\n"; }
    if (!r.sample.empty()) { std::string t = r.sample; for (auto &c : t) if (c == '\n') c = '~'; o << "P " << t << "\n"; }
    std::string cv; { static std::vector<uint8_t> sent; sent.resize(cover.size(), 0); for (size_t i = 0; i < cover.size() && i < nBlocks; i++) if (cover[i] && !sent[i]) { sent[i] = 1; DFunc *df = blockIdx[i].first; o << "B " << df->id << " " << blockIdx[i].second << "\n"; } }
    o << "J " << r.jobs.size() << "\n"; for (auto &x : r.jobs) o << serJob(x); wr(fd, o.str());
  }
  _exit(0);
}
struct Worker { pid_t pid; int fd; bool busy = false; double since = 0; std::string cur; };
static Worker spawn() { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(2); } fflush(stdout); pid_t p = fork(); if (p == 0) { close(sv[0]); workerLoop(sv[1]); _exit(0); } close(sv[1]); fcntl(sv[0], F_SETFD, FD_CLOEXEC); return {p, sv[0]}; }

int main(int argc, char **argv) {
  std::string bc; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); }; if (a == "--workers") O.workers = stoi(nx()); else if (a == "--time") O.timeLimit = stod(nx()); else if (a == "--max-paths") O.maxPaths = stol(nx()); else if (a == "--rlimit") O.rlimit = stoul(nx()); else if (a == "--steps") O.maxSteps = stoul(nx()); else if (a == "--wall") O.runWall = stod(nx()); else if (a == "--replay") O.replay = nx(); else if (a == "--out") O.out = nx(); else if (a == "--scratch") O.scratch = nx(); else if (a == "--samples") O.samples = stoi(nx()); else if (a == "--seed") O.seed = stoul(nx()); else if (a == "--order") O.order = stoi(nx()); else if (a == "--keep-going") O.stopOnViolation = false; else if (a == "-v") O.verbose = true; else bc = a; }
  void *p = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (p == MAP_FAILED) { perror("mmap"); return 2; } FL = (uint8_t *)mmap(nullptr, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (FL == MAP_FAILED) { perror("mmap"); return 2; }
  regExts(); setupModule(bc); signal(SIGPIPE, SIG_IGN);
  auto *mf = M->getFunction("vs_main"); if (!mf) { fprintf(stderr, "no vs_main\n"); return 2; } mainF = fmap[mf];
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : ca->operands()) if (auto *cs = dyn_cast<ConstantStruct>(op)) if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back(fmap[f]);
  for (auto *f : funcs) if (!f->F->isDeclaration() && !f->ext) decode(f); cover.assign(nBlocks + 16, 0);
  double t0 = nowS(); std::vector<Worker> W; for (int i = 0; i < O.workers; i++) W.push_back(spawn());
  std::deque<std::string> Qj; Qj.push_back(serJob(Job{})); long paths = 0, started = 0; SolverStats tot; RunStats rt; std::map<std::string, long> ends, incon, reach, checkMsg, notes; struct VR { std::string kind, msg, where, replay; bool conf; std::vector<std::pair<std::string, std::string>> in; }; std::vector<VR> viol; long nConf = 0, nSpur = 0; std::vector<std::string> samples; std::mt19937 rng(O.seed); bool timeout = false; std::set<std::pair<int, int>> cov; long crashes = 0; long nSample = 0; double lastPr = t0;
  for (;;) {
    int busy = 0; for (auto &w : W) { if (!w.busy && !Qj.empty() && started < O.maxPaths) { std::string j; if (O.order == 1) { j = Qj.front(); Qj.pop_front(); } else if (O.order == 2 && Qj.size() > 2) { size_t k = rng() % Qj.size(); std::swap(Qj[k], Qj.back()); j = Qj.back(); Qj.pop_back(); } else { j = Qj.back(); Qj.pop_back(); } w.busy = true; w.since = nowS(); w.cur = j; started++; wr(w.fd, j); } if (w.busy) busy++; }
    if (!busy) break; if (nowS() - t0 > O.timeLimit) { timeout = true; break; }
    std::vector<pollfd> pf; for (auto &w : W) pf.push_back({w.fd, (short)(w.busy ? POLLIN : 0), 0}); poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < W.size(); i++) {
      auto &w = W[i]; if (!w.busy) continue; bool dead = false; std::string s;
      if (pf[i].revents & (POLLIN | POLLHUP)) { if (!rd(w.fd, s)) dead = true; } else { if (nowS() - w.since > O.runWall + 30) { dead = true; ends["hang"]++; } else continue; }
      if (dead) { kill(w.pid, SIGKILL); int stt; waitpid(w.pid, &stt, 0); close(w.fd); crashes++; ends["worker-lost"]++; paths++; W[i] = spawn(); continue; }
      w.busy = false; paths++; std::istringstream is(s); std::string ln; VR *cv = nullptr; std::string sample;
      while (std::getline(is, ln)) { char t = ln[0]; std::string b = ln.size() > 2 ? ln.substr(2) : "";
        if (t == 'S') { std::istringstream q(b); unsigned long x[13]; double tm, mq; q >> x[0] >> x[1] >> x[2] >> tm >> mq; tot.sat += x[0]; tot.unsat += x[1]; tot.unknown += x[2]; tot.time += tm; tot.maxq = std::max(tot.maxq, mq); unsigned long y; q >> y; rt.steps += y; q >> y; rt.forks += y; q >> y; rt.checks += y; q >> y; rt.checksUnsat += y; q >> y; rt.checksTriv += y; q >> y; rt.checksUnknown += y; q >> y; rt.branchUnknown += y; q >> y; rt.concretize += y; q >> y; rt.assumes += y; }
        else if (t == 'E') ends[b]++; else if (t == 'U') incon[b]++; else if (t == 'R') { size_t k = b.find(' '); reach[b.substr(k + 1)] += stol(b); } else if (t == 'C') { size_t k = b.find(' '); checkMsg[b.substr(k + 1)] += stol(b); } else if (t == 'N') notes[b]++;
        else if (t == 'V') { VR v; v.conf = b[0] == '1'; std::string r = b.substr(2); size_t k1 = r.find('|'), k2 = r.find('|', k1 + 1); v.kind = r.substr(0, k1); v.msg = r.substr(k1 + 1, k2 - k1 - 1); v.where = r.substr(k2 + 1); if (v.conf) nConf++; else nSpur++; if (viol.size() < 200 || v.conf) { viol.push_back(v); cv = &viol.back(); } else cv = nullptr; }
        else if (t == 'I' && cv) { size_t k = b.find(' '); cv->in.push_back({b.substr(0, k), b.substr(k + 1)}); } else if (t == 'O' && cv) cv->replay = b; else if (t == 'P') { nSample++; if ((int)samples.size() < O.samples) samples.push_back(b); else if (O.samples > 0) { size_t k = rng() % nSample; if (k < samples.size()) samples[k] = b; } } else if (t == 'B') { std::istringstream q(b); int x, y; q >> x >> y; cov.insert({x, y}); }
        else if (t == 'J') { std::string rest((std::istreambuf_iterator<char>(is)), {}); const char *pp = rest.c_str(); while (*pp == 'D') { const char *q = strchr(pp, '\n'); q = strchr(q + 1, '\n'); Qj.emplace_back(pp, q + 1 - pp); pp = q + 1; } break; } }
    }
    if (O.verbose && nowS() - lastPr > 2) { lastPr = nowS(); fprintf(stderr, "[%.0fs] paths %ld queue %zu checks %lu sat %lu unsat %lu unk %lu solver %.1fs viol %ld spur %ld\n", nowS() - t0, paths, Qj.size(), rt.checks, tot.sat, tot.unsat, tot.unknown, tot.time, nConf, nSpur); }
    if (nConf && O.stopOnViolation) break;
  }
  for (auto &w : W) { kill(w.pid, SIGKILL); int stt; waitpid(w.pid, &stt, 0); }
  std::ostringstream o; bool exh = Qj.empty() && !timeout && incon.empty() && !crashes && !tot.unknown && started < O.maxPaths && !(nConf && O.stopOnViolation);
  auto mp = [&](const char *n, std::map<std::string, long> &m) { o << "\"" << n << "\":{"; bool f = true; for (auto &x : m) { if (!f) o << ","; f = false; o << "\"" << jesc(x.first) << "\":" << x.second; } o << "},\n"; };
  o << "{\"paths\":" << paths << ",\"pending\":" << Qj.size() << ",\"exhausted\":" << (exh ? "true" : "false") << ",\"timeout\":" << (timeout ? "true" : "false") << ",\"worker_lost\":" << crashes << ",\n\"queries_sat\":" << tot.sat << ",\"queries_unsat\":" << tot.unsat << ",\"queries_unknown\":" << tot.unknown << ",\"solver_s\":" << tot.time << ",\"max_query_s\":" << tot.maxq << ",\"wall_s\":" << nowS() - t0 << ",\n\"steps\":" << rt.steps << ",\"forks\":" << rt.forks << ",\"checks\":" << rt.checks << ",\"checks_unsat\":" << rt.checksUnsat << ",\"checks_trivial\":" << rt.checksTriv << ",\"checks_unknown\":" << rt.checksUnknown << ",\"branch_unknown\":" << rt.branchUnknown << ",\"concretizations\":" << rt.concretize << ",\"spurious\":" << nSpur << ",\"confirmed\":" << nConf << ",\n";
  mp("ends", ends); mp("inconclusive", incon); mp("reach", reach); mp("check_msgs", checkMsg); mp("notes", notes);
  o << "\"violations\":["; bool f1 = true; for (auto &v : viol) { if (!f1) o << ",\n"; f1 = false; o << "{\"confirmed\":" << (v.conf ? "true" : "false") << ",\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"replay\":\"" << jesc(v.replay) << "\",\"inputs\":["; bool f2 = true; for (auto &q : v.in) { if (!f2) o << ","; f2 = false; o << "[\"" << jesc(q.first) << "\",\"" << jesc(q.second) << "\"]"; } o << "]}"; } o << "],\n\"samples\":["; f1 = true; for (auto &s : samples) { if (!f1) o << ",\n"; f1 = false; o << "\"" << jesc(s) << "\""; } o << "],\n\"functions\":["; f1 = true; std::map<int, int> fc; for (auto &c : cov) fc[c.first]++; for (auto &x : fc) { DFunc *d = funcs[x.first]; if (!d->fromRepo) continue; if (!f1) o << ",\n"; f1 = false; o << "[\"" << jesc(demangle(d->name)) << "\"," << x.second << "," << d->bl.size() << "]"; } o << "],\n\"uncovered\":["; f1 = true; if (O.verbose) for (auto *d : funcs) if (d->fromRepo && !d->bl.empty()) { for (size_t b = 0; b < d->bl.size(); b++) if (!cov.count({d->id, (int)b})) { unsigned ln = 0; for (auto &I : *d->bl[b].bb) if (I.getDebugLoc()) { ln = I.getDebugLoc().getLine(); break; } if (!f1) o << ","; f1 = false; o << "[\"" << jesc(demangle(d->name)) << "\"," << ln << "]"; } } o << "]}\n";
  if (O.out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream(O.out) << o.str(); }
  return 0;
}
