// nsym: a symbolic executor for LLVM 18 IR with a Z3 back end, built for header-only C++ containers.
// Paths are explored exhaustively; symbolic data lives in memory byte-wise; every memory access is checked;
// C++ exceptions are modelled at the Itanium-ABI level.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <memory>
#include <chrono>
#include <functional>
#include <sstream>
#include <fstream>
#include <cstring>
#include <cstdio>
#include <atomic>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
using std::string; using std::vector;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- values
struct Val { E e = nullptr; uint64_t c = 0; uint8_t um = 0; };   // e: symbolic; c: concrete; um: uninitialised-byte mask
static Val mk(uint64_t c) { Val v; v.c = c; return v; }
static Val mkE(E e) { Val v; if (e->k == K::Const) v.c = e->val; else v.e = e; return v; }
static Val undefV() { Val v; v.um = 0xff; return v; }
static E toE(const Val &v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }

// ---------------------------------------------------------------- memory
enum OKind : uint8_t { OGlobal, OConst, OStack, OHeap, OFunc, OExc, OExtern };
struct SymByte { E e; uint8_t i; };
struct Obj {
  int rc = 1; uint64_t base = 0; uint32_t size = 0; OKind kind = OHeap; bool alive = true;
  vector<uint8_t> d, st; vector<SymByte> sy;     // st: 0 concrete, 1 uninit, 2 symbolic
};
struct Page { int rc = 1; Obj *o[64]; Page() { memset(o, 0, sizeof o); } };
static void decObj(Obj *o) { if (o && --o->rc == 0) delete o; }
static void decPage(Page *p) { if (--p->rc == 0) { for (auto o : p->o) decObj(o); delete p; } }
struct Mem {
  vector<Page *> pg; uint32_t next = 1;
  Mem() {}
  Mem(const Mem &m) : pg(m.pg), next(m.next) { for (auto p : pg) ++p->rc; }
  Mem &operator=(const Mem &m) { if (this != &m) { for (auto p : m.pg) ++p->rc; for (auto p : pg) decPage(p); pg = m.pg; next = m.next; } return *this; }
  ~Mem() { for (auto p : pg) decPage(p); }
  const Obj *get(uint32_t id) const { if (id == 0 || id >= next) return nullptr; return pg[id >> 6]->o[id & 63]; }
  Obj *mut(uint32_t id) {
    Page *&p = pg[id >> 6];
    if (p->rc > 1) { Page *n = new Page(); for (int i = 0; i < 64; ++i) { n->o[i] = p->o[i]; if (n->o[i]) ++n->o[i]->rc; } --p->rc; p = n; }
    Obj *&o = p->o[id & 63];
    if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; --o->rc; o = n; }
    return o;
  }
  uint32_t add(uint32_t size, OKind k, unsigned align, bool uninit) {
    uint32_t id = next++;
    while ((id >> 6) >= pg.size()) pg.push_back(new Page());
    Page *&p = pg[id >> 6];
    if (p->rc > 1) { Page *n = new Page(); for (int i = 0; i < 64; ++i) { n->o[i] = p->o[i]; if (n->o[i]) ++n->o[i]->rc; } --p->rc; p = n; }
    Obj *o = new Obj(); o->size = size; o->kind = k;
    // aligned to exactly what was asked for, not more
    uint64_t off = 0x10; if (align >= 16) off = align; else if (align) off += align;
    o->base = ((uint64_t)id << 24) + off;
    o->d.assign(size, 0); o->st.assign(size, uninit ? 1 : 0);
    p->o[id & 63] = o; return id;
  }
};

// ---------------------------------------------------------------- pre-decoded code
enum Opc : uint8_t { oBin, oICmp, oZExt, oSExt, oTrunc, oMove, oLoad, oStore, oGEP, oAlloca, oBr, oCondBr, oSwitch, oRet, oCall,
                     oSelect, oExtractV, oInsertV, oUnreach, oLandingPad, oResume, oUnsupported, oFreeze, oRMW, oCmpX, oNop };
struct FInfo;
struct Edge { int target = -1; vector<std::array<int, 3>> copies; bool self = false; }; // dst, src, n
struct GepIdx { int ref; uint64_t scale; unsigned w; };
struct Op {
  Opc o; uint8_t w = 0, w2 = 0; K k = K::Add; int dst = -1, n = 0; int a = 0, b = 0, c = 0;
  uint8_t pred = 0; bool exact = false;
  uint64_t imm = 0; vector<GepIdx> gi; vector<int> args; vector<unsigned> argN;
  vector<std::pair<uint64_t, unsigned>> leaves;   // (offset,width) of memory leaves
  vector<Edge> ed; vector<uint64_t> cases; Instruction *I = nullptr;
  FInfo *callee = nullptr; int ext = -1; int normal = -1, unwind = -1; // edge indices for invoke
  vector<int> clause; bool cleanup = false; vector<uint64_t> clauseTI; vector<uint8_t> clauseCatch; // 1 catch, 2 filter
};
struct FInfo { Function *F = nullptr; int nslots = 0; vector<Op> ops; vector<int> argSlot; vector<unsigned> argN; bool decoded = false; uint64_t calls = 0; int retN = 0; };
struct Frame { FInfo *f; int pc; int base; int nalloca; uint32_t excFree; int caller; };

struct ExcInfo { uint32_t id; uint64_t ti; uint64_t dtor; int refs; };
struct Input { const char *name; uint8_t w; E e; uint64_t c; bool choice; };

struct State {
  vector<Frame> fr; vector<Val> regs; vector<uint32_t> allocas; Mem mem;
  vector<E> pc; vector<uint64_t> model; vector<uint8_t> widths; vector<Input> in;
  vector<ExcInfo> exc; vector<std::pair<uint64_t, bool>> caught; uint64_t inflight = 0; 
  uint64_t steps = 0; uint64_t oomTick = 0; int forks = 0;
};

// ---------------------------------------------------------------- globals
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::map<string, long long> params;
static uint64_t maxSteps = 4000000, maxPaths = 0; static double timeoutS = 600; static int jobs = 1; static int splitW = 256;
static Solver S; static Evaluator EV;
static std::unordered_map<const Function *, FInfo *> finfo; static std::unordered_map<uint64_t, FInfo *> faddr;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr; static vector<Val> pool;
static std::unordered_map<const Constant *, int> poolIdx;
static vector<string> extNames; static std::unordered_map<string, int> extIdx;
static std::deque<State *> work;
static std::set<string> covers, functionsSeen, expectCovers;
struct Stats { uint64_t paths = 0, killed = 0, steps = 0, forks = 0, checks = 0, checksSym = 0, memChecks = 0, maxDepth = 0, maxVars = 0; uint64_t inconclusive = 0; uint64_t symPaths = 0; } st;
static std::map<string, uint64_t> inconc; // reason -> count
struct Violation { string kind, msg, where; vector<Input> in; vector<uint64_t> vals; };
static vector<Violation> viols; static vector<string> samples;
struct Shared { std::atomic<int> nextIdx; std::atomic<int> stop; std::atomic<uint64_t> paths; };
static Shared *sh; static double T0;
struct PathEnd { }; // thrown to end the current path

static string loc(const Instruction *I) {
  string r; if (I) if (auto &dl = I->getDebugLoc()) { r = dl->getFilename().str() + ":" + std::to_string(dl.getLine()); }
  return r;
}
static string trace(State &s) {
  string r;
  for (int i = (int)s.fr.size() - 1; i >= 0 && i > (int)s.fr.size() - 12; --i) {
    auto &f = s.fr[i]; int pc = f.pc; const Instruction *I = f.f->ops[pc].I;
    r += "  at " + loc(I) + " in " + demangle(f.f->F->getName().str()).substr(0, 160) + "\n";
  }
  return r;
}
[[noreturn]] static void violate(State &s, const string &kind, const string &msg, const vector<uint64_t> *mod = nullptr) {
  Violation v; v.kind = kind; v.msg = msg; v.where = trace(s);
  const vector<uint64_t> &m = mod ? *mod : s.model; EV.set(&m);
  for (auto &i : s.in) { v.in.push_back(i); v.vals.push_back(i.e ? EV.eval(i.e) : i.c); }
  EV.set(&s.model); viols.push_back(v); if (sh) sh->stop = 1; throw PathEnd();
}
[[noreturn]] static void inconclusive(State &s, const string &why) { inconc[why + " " + loc(s.fr.empty() ? nullptr : s.fr.back().f->ops[s.fr.back().pc].I)]++; st.inconclusive++; throw PathEnd(); }

// ---------------------------------------------------------------- type flattening
static unsigned leafW(Type *t) { if (t->isIntegerTy()) { return t->getIntegerBitWidth(); } if (t->isPointerTy()) return 64; return 0; }
static void flatten(Type *t, uint64_t off, vector<std::pair<uint64_t, unsigned>> &out) {
  if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i * es, out); return; }
  if (t->isVoidTy()) return;
  unsigned w = leafW(t);
  if (t->isFloatTy()) w = 32; if (t->isDoubleTy()) w = 64;
  out.push_back({off, w ? w : 64});
}
static unsigned nslots(Type *t) { vector<std::pair<uint64_t, unsigned>> v; flatten(t, 0, v); return v.size(); }

// ---------------------------------------------------------------- constants
static uint64_t addrOf(const GlobalValue *g);
static Val evalConst(const Constant *c);
static void flatConst(const Constant *c, vector<Val> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) { if (auto e = c->getAggregateElement(i)) flatConst(e, out); else { unsigned k = nslots(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()); for (unsigned j = 0; j < k; ++j) out.push_back(undefV()); } }
    return;
  }
  out.push_back(evalConst(c));
}
static Val evalConst(const Constant *c) {
  if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return undefV(); return mk(ci->getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return mk(0);
  if (isa<UndefValue>(c)) return undefV();
  if (auto g = dyn_cast<GlobalValue>(c)) return mk(addrOf(g));
  if (auto z = dyn_cast<ConstantAggregateZero>(c)) { (void)z; return mk(0); }
  if (auto cf = dyn_cast<ConstantFP>(c)) { return mk(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto go = cast<GEPOperator>(ce); APInt off(64, 0); if (!go->accumulateConstantOffset(*DL, off)) break;
        return mk(evalConst(cast<Constant>(go->getPointerOperand())).c + off.getSExtValue()); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        { Val v = evalConst(ce->getOperand(0)); unsigned w = leafW(ce->getType()); v.c &= maskw(w); return v; }
      case Instruction::Add: return mk((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & maskw(leafW(ce->getType())));
      case Instruction::Sub: return mk((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & maskw(leafW(ce->getType())));
      case Instruction::Trunc: return mk(evalConst(ce->getOperand(0)).c & maskw(leafW(ce->getType())));
      default: break;
    }
  }
  string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "nsym: unsupported constant %s\n", s.c_str()); exit(3);
}
static int constRef(const Constant *c) {
  auto it = poolIdx.find(c); if (it != poolIdx.end()) return ~it->second;
  vector<Val> v; flatConst(c, v); int idx = pool.size(); pool.insert(pool.end(), v.begin(), v.end()); if (v.empty()) pool.push_back(mk(0));
  poolIdx[c] = idx; return ~idx;
}
static Mem initMem;
static uint64_t addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  uint64_t a;
  if (auto f = dyn_cast<Function>(g)) {
    uint32_t id = initMem.add(1, OFunc, 16, false); a = initMem.get(id)->base; gaddr[g] = a;
    auto fi = new FInfo(); fi->F = const_cast<Function *>(f); finfo[f] = fi; faddr[a] = fi; return a;
  }
  if (auto al = dyn_cast<GlobalAlias>(g)) { a = addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts())); gaddr[g] = a; return a; }
  auto gv = cast<GlobalVariable>(g);
  uint64_t sz = gv->isDeclaration() ? 256 : DL->getTypeAllocSize(gv->getValueType());
  unsigned al = gv->getAlign() ? gv->getAlign()->value() : 16;
  uint32_t id = initMem.add(sz, gv->isDeclaration() ? OExtern : gv->isConstant() ? OConst : OGlobal, al, false);
  return gaddr[g] = initMem.get(id)->base;
}
static void initGlobal(const GlobalVariable *gv) {
  if (gv->isDeclaration() || gv->getName().starts_with("llvm.")) return;
  uint64_t a = addrOf(gv); Obj *o = initMem.mut(a >> 24);
  vector<std::pair<uint64_t, unsigned>> lv; flatten(gv->getValueType(), 0, lv); vector<Val> vs; flatConst(gv->getInitializer(), vs);
  for (size_t i = 0; i < lv.size() && i < vs.size(); ++i) { unsigned n = (lv[i].second + 7) / 8; for (unsigned k = 0; k < n; ++k) { o->d[lv[i].first + k] = vs[i].c >> (8 * k); } }
}

// ---------------------------------------------------------------- decoding
static FInfo *infoOf(Function *f) { addrOf(f); return finfo[f]; }
static void decode(FInfo *fi) {
  if (fi->decoded) return; fi->decoded = true;
  Function *F = fi->F; std::unordered_map<const Value *, int> slot; int ns = 0;
  for (auto &a : F->args()) { unsigned n = nslots(a.getType()); slot[&a] = ns; fi->argSlot.push_back(ns); fi->argN.push_back(n); ns += n; }
  for (auto &B : *F) for (auto &I : B) { unsigned n = nslots(I.getType()); if (n) { slot[&I] = ns; ns += n; } }
  fi->nslots = ns; fi->retN = nslots(F->getReturnType());
  auto ref = [&](const Value *v) -> int { if (auto c = dyn_cast<Constant>(v)) return constRef(c); auto it = slot.find(v); if (it == slot.end()) return constRef(ConstantInt::get(Type::getInt64Ty(LC), 0)); return it->second; };
  std::unordered_map<const BasicBlock *, int> start; int cnt = 0;
  for (auto &B : *F) { start[&B] = cnt; for (auto &I : B) if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) ++cnt; }
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.target = start[to]; for (auto &ph : to->phis()) { e.copies.push_back({slot[&ph], ref(ph.getIncomingValueForBlock(from)), (int)nslots(ph.getType())}); } return e; };
  for (auto &B : *F) for (auto &I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    Op op; op.o = oUnsupported; op.I = &I; auto it = slot.find(&I); if (it != slot.end()) op.dst = it->second; op.n = nslots(I.getType());
    unsigned w = leafW(I.getType());
    if (auto bo = dyn_cast<BinaryOperator>(&I)) {
      op.o = oBin; op.w = w; op.a = ref(bo->getOperand(0)); op.b = ref(bo->getOperand(1));
      switch (bo->getOpcode()) {
        case Instruction::Add: op.k = K::Add; break; case Instruction::Sub: op.k = K::Sub; break; case Instruction::Mul: op.k = K::Mul; break;
        case Instruction::UDiv: op.k = K::UDiv; break; case Instruction::SDiv: op.k = K::SDiv; op.exact = bo->isExact(); break;
        case Instruction::URem: op.k = K::URem; break; case Instruction::SRem: op.k = K::SRem; break;
        case Instruction::And: op.k = K::And; break; case Instruction::Or: op.k = K::Or; break; case Instruction::Xor: op.k = K::Xor; break;
        case Instruction::Shl: op.k = K::Shl; break; case Instruction::LShr: op.k = K::LShr; break; case Instruction::AShr: op.k = K::AShr; break;
        default: op.o = oUnsupported;
      }
      if (w == 0 || w > 64) op.o = oUnsupported;
    } else if (auto ic = dyn_cast<ICmpInst>(&I)) {
      op.o = oICmp; op.w = leafW(ic->getOperand(0)->getType()); op.a = ref(ic->getOperand(0)); op.b = ref(ic->getOperand(1)); op.pred = ic->getPredicate(); if (op.w == 0) op.o = oUnsupported;
    } else if (auto ca = dyn_cast<CastInst>(&I)) {
      op.a = ref(ca->getOperand(0)); op.w2 = leafW(ca->getOperand(0)->getType()); op.w = w;
      switch (ca->getOpcode()) {
        case Instruction::ZExt: op.o = oZExt; break; case Instruction::SExt: op.o = oSExt; break; case Instruction::Trunc: op.o = oTrunc; break;
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: op.o = op.w == op.w2 ? oMove : op.w < op.w2 ? oTrunc : oZExt; break;
        default: break;
      }
      if (!op.w || !op.w2 || op.w > 64 || op.w2 > 64) op.o = oUnsupported;
    } else if (auto ld = dyn_cast<LoadInst>(&I)) { op.o = oLoad; op.a = ref(ld->getPointerOperand()); flatten(ld->getType(), 0, op.leaves); op.imm = DL->getTypeStoreSize(ld->getType()); op.c = ld->getAlign().value(); if (op.leaves.size() == 1 && op.leaves[0].second > 64) op.o = oUnsupported;
    } else if (isa<FenceInst>(&I)) { op.o = oNop;
    } else if (auto rm = dyn_cast<AtomicRMWInst>(&I)) { // one thread: an ordinary read, modify, write
      op.a = ref(rm->getPointerOperand()); op.b = ref(rm->getValOperand()); op.w = w; bool ok = w > 0 && w <= 64; op.imm = 0;
      switch (rm->getOperation()) { case AtomicRMWInst::Xchg: op.imm = 1; break; case AtomicRMWInst::Add: op.k = K::Add; break; case AtomicRMWInst::Sub: op.k = K::Sub; break; case AtomicRMWInst::And: op.k = K::And; break; case AtomicRMWInst::Or: op.k = K::Or; break; case AtomicRMWInst::Xor: op.k = K::Xor; break; default: ok = false; }
      if (ok) op.o = oRMW;
    } else if (auto cx = dyn_cast<AtomicCmpXchgInst>(&I)) { op.a = ref(cx->getPointerOperand()); op.b = ref(cx->getCompareOperand()); op.c = ref(cx->getNewValOperand()); op.w = leafW(cx->getCompareOperand()->getType()); if (op.w && op.w <= 64) op.o = oCmpX;
    } else if (auto sto = dyn_cast<StoreInst>(&I)) { op.o = oStore; op.a = ref(sto->getPointerOperand()); op.b = ref(sto->getValueOperand()); flatten(sto->getValueOperand()->getType(), 0, op.leaves); op.imm = DL->getTypeStoreSize(sto->getValueOperand()->getType()); op.c = sto->getAlign().value();
    } else if (auto ge = dyn_cast<GetElementPtrInst>(&I)) {
      op.o = oGEP; op.a = ref(ge->getPointerOperand()); int64_t base = 0;
      for (auto gi = gep_type_begin(ge), e = gep_type_end(ge); gi != e; ++gi) {
        Value *ix = gi.getOperand();
        if (auto stt = gi.getStructTypeOrNull()) { base += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
        if (auto ci = dyn_cast<ConstantInt>(ix)) base += ci->getSExtValue() * (int64_t)sc; else op.gi.push_back({ref(ix), sc, leafW(ix->getType())});
      }
      op.imm = base;
    } else if (auto al = dyn_cast<AllocaInst>(&I)) { op.o = oAlloca; op.imm = DL->getTypeAllocSize(al->getAllocatedType()); op.a = ref(al->getArraySize()); op.w = leafW(al->getArraySize()->getType()); op.c = al->getAlign().value();
    } else if (auto br = dyn_cast<BranchInst>(&I)) {
      if (br->isConditional()) { op.o = oCondBr; op.a = ref(br->getCondition()); op.ed.push_back(edge(&B, br->getSuccessor(0))); op.ed.push_back(edge(&B, br->getSuccessor(1))); }
      else { op.o = oBr; op.ed.push_back(edge(&B, br->getSuccessor(0))); }
    } else if (auto sw = dyn_cast<SwitchInst>(&I)) {
      op.o = oSwitch; op.a = ref(sw->getCondition()); op.w = leafW(sw->getCondition()->getType()); op.ed.push_back(edge(&B, sw->getDefaultDest()));
      for (auto &cs : sw->cases()) { op.cases.push_back(cs.getCaseValue()->getZExtValue()); op.ed.push_back(edge(&B, cs.getCaseSuccessor())); }
    } else if (auto re = dyn_cast<ReturnInst>(&I)) { op.o = oRet; if (re->getReturnValue()) { op.a = ref(re->getReturnValue()); op.n = nslots(re->getReturnValue()->getType()); } else op.n = 0;
    } else if (auto se = dyn_cast<SelectInst>(&I)) { op.o = oSelect; op.a = ref(se->getCondition()); op.b = ref(se->getTrueValue()); op.c = ref(se->getFalseValue()); op.w = w;
    } else if (auto ev = dyn_cast<ExtractValueInst>(&I)) {
      op.o = oExtractV; op.a = ref(ev->getAggregateOperand()); Type *t = ev->getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : ev->indices()) { for (unsigned j = 0; j < ix; ++j) off += nslots(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
      op.imm = off;
    } else if (auto iv = dyn_cast<InsertValueInst>(&I)) {
      op.o = oInsertV; op.a = ref(iv->getAggregateOperand()); op.b = ref(iv->getInsertedValueOperand()); Type *t = iv->getType(); unsigned off = 0;
      for (unsigned ix : iv->indices()) { for (unsigned j = 0; j < ix; ++j) off += nslots(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
      op.imm = off; op.c = nslots(iv->getInsertedValueOperand()->getType());
    } else if (isa<UnreachableInst>(&I)) op.o = oUnreach;
    else if (isa<FreezeInst>(&I)) { op.o = oMove; op.a = ref(I.getOperand(0)); }
    else if (auto lp = dyn_cast<LandingPadInst>(&I)) {
      op.o = oLandingPad; op.cleanup = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) { op.clauseCatch.push_back(1); auto c = lp->getClause(i)->stripPointerCasts(); op.clauseTI.push_back(isa<ConstantPointerNull>(c) ? 0 : evalConst(c).c); }
        else { op.clauseCatch.push_back(2); op.clauseTI.push_back(0); }
      }
    } else if (isa<ResumeInst>(&I)) { op.o = oResume; op.a = ref(I.getOperand(0)); }
    else if (auto cb = dyn_cast<CallBase>(&I)) {
      op.o = oCall;
      for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { op.args.push_back(0); op.argN.push_back(0); continue; } op.args.push_back(ref(a.get())); op.argN.push_back(nslots(a->getType())); }
      if (auto inv = dyn_cast<InvokeInst>(&I)) { op.ed.push_back(edge(&B, inv->getNormalDest())); op.ed.push_back(edge(&B, inv->getUnwindDest())); op.normal = 0; op.unwind = 1; }
      Value *cv = cb->getCalledOperand()->stripPointerCasts();
      if (auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
      if (auto cf = dyn_cast<Function>(cv)) {
        FInfo *ci = infoOf(cf);
        if (!cf->isDeclaration() && !cf->getName().starts_with("nsym_")) op.callee = ci;
        else { string nm = cf->getName().str(); if (cf->isIntrinsic()) { auto p = nm.find(".p0"); if (p != string::npos) nm = nm.substr(0, p); p = nm.find(".i"); if (nm.rfind("llvm.", 0) == 0 && p != string::npos && p > 5 && isdigit(nm[p + 2])) nm = nm.substr(0, p); }
          auto r = extIdx.emplace(nm, (int)extNames.size()); if (r.second) extNames.push_back(nm); op.ext = r.first->second; }
      } else op.a = ref(cv);
      op.w = w;
    }
    fi->ops.push_back(std::move(op));
  }
}

// ---------------------------------------------------------------- execution core
static State *cur;
static inline Val get(State &s, int ref, int i = 0) { if (ref >= 0) return s.regs[s.fr.back().base + ref + i]; return pool[~ref + i]; }
static inline void set(State &s, int dst, const Val &v, int i = 0) { s.regs[s.fr.back().base + dst + i] = v; }
static void addPC(State &s, E c) { if (c->k == K::Const) return; s.pc.push_back(c); }
static State *clone(State &s) { State *n = new State(s); n->forks++; ++st.forks; return n; }

// make v concrete by case-splitting on its feasible values; other values are explored by a clone re-executing this instruction
static void concretize(State &s, Val &v, unsigned w, const char *what) {
  if (v.um) violate(s, "uninitialised", string("use of an uninitialised value as ") + what);
  if (!v.e) return;
  uint64_t x = EV.eval(v.e); E eq = P.bin(K::Eq, v.e, P.cst(x, w)); E ne = P.notb(eq);
  if (eq->k == K::Const) { v = mk(x); return; }
  vector<uint64_t> m; int r = S.check(s.pc, ne, &m, s.widths);
  if (r < 0) inconclusive(s, "solver returned unknown");
  if (r == 1) { State *n = clone(s); addPC(*n, ne); n->model = m; work.push_back(n); addPC(s, eq); EV.set(&s.model); }
  v = mk(x);
}
// decide a condition; forks when both sides are feasible. The clone's continuation is given by `other`.
static bool decide(State &s, const Val &c, const std::function<void(State &, bool)> &other) {
  if (c.um) violate(s, "uninitialised", "branch depends on an uninitialised value");
  if (!c.e) return c.c & 1;
  bool b = EV.eval(c.e); E taken = b ? c.e : P.notb(c.e), neg = b ? P.notb(c.e) : c.e;
  // cheap syntactic implication check against the most recent constraints
  for (size_t i = s.pc.size(), k = 0; i > 0 && k < 64; --i, ++k) if (s.pc[i - 1] == taken) return b;
  vector<uint64_t> m; int r = S.check(s.pc, neg, &m, s.widths);
  if (r < 0) inconclusive(s, "solver returned unknown");
  if (r == 1) { State *n = clone(s); addPC(*n, neg); n->model = m; other(*n, !b); work.push_back(n); addPC(s, taken); EV.set(&s.model); }
  return b;
}
static string objDesc(const Obj *o) { static const char *kn[] = {"global", "constant", "stack object", "heap block", "function", "exception object", "external object"}; return string(kn[o->kind]) + " of " + std::to_string(o->size) + " bytes"; }
static const Obj *resolve(State &s, uint64_t addr, uint64_t n, bool write, uint32_t &id, uint32_t &off) {
  ++st.memChecks;
  id = addr >> 24; const Obj *o = s.mem.get(id);
  char b[64]; snprintf(b, sizeof b, "%#llx", (unsigned long long)addr);
  if (!o) violate(s, "invalid-pointer", string(write ? "write" : "read") + " through " + (addr < 4096 ? "a null" : "a wild") + " pointer " + b);
  if (!o->alive) violate(s, "use-after-free", string(write ? "write to" : "read from") + " a dead " + objDesc(o));
  if (addr < o->base || addr + n > o->base + o->size) violate(s, "out-of-bounds", string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)(addr - o->base)) + " of a " + objDesc(o));
  if (o->kind == OFunc || (write && (o->kind == OConst || o->kind == OExtern))) violate(s, "invalid-write", "write to a " + objDesc(o));
  if (o->kind == OExtern) inconclusive(s, "read of unmodelled external data");
  off = addr - o->base; return o;
}
[[noreturn]] static void misaligned(State &s, uint64_t addr) { uint32_t id, off; resolve(s, addr, 1, false, id, off); violate(s, "misaligned", "access through a pointer that is not aligned for its type"); }
static Val loadLeaf(State &s, uint64_t addr, unsigned w) {
  unsigned n = (w + 7) / 8; uint32_t id, off; const Obj *o = resolve(s, addr, n, false, id, off);
  Val v; bool sym = false; uint64_t c = 0; uint8_t um = 0;
  for (unsigned i = 0; i < n; ++i) { uint8_t t = o->st[off + i]; if (t == 0) c |= (uint64_t)o->d[off + i] << (8 * i); else if (t == 1) um |= 1 << i; else sym = true; }
  if (um) { v.um = um; if (!sym) v.c = c; else { v.um = 0xff; } if (um == (n == 8 ? 0xff : (1 << n) - 1)) v.um = 0xff; return v; }
  if (!sym) { v.c = w < 8 * n ? c & maskw(w) : c; return v; }
  E f = nullptr; if (o->st[off] == 2) { auto &b = o->sy[off]; f = b.e; if (b.i == 0 && f->w == 8 * n) { bool all = true; for (unsigned i = 1; i < n && all; ++i) all = o->st[off + i] == 2 && o->sy[off + i].e == f && o->sy[off + i].i == i; if (all) { if (w < f->w) f = P.extract(f, 0, w); return mkE(f); } } }
  E r = nullptr;
  for (unsigned i = 0; i < n; ++i) { E b = o->st[off + i] == 0 ? P.cst(o->d[off + i], 8) : P.extract(o->sy[off + i].e, 8 * o->sy[off + i].i, 8); r = r ? P.concat(b, r) : b; }
  if (w < 8 * n) r = P.extract(r, 0, w);
  return mkE(r);
}
static void storeLeaf(State &s, uint64_t addr, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8; uint32_t id, off; resolve(s, addr, n, true, id, off); Obj *o = s.mem.mut(id);
  if (v.e) {
    E e = v.e; if (e->w < 8 * n) e = P.zext(e, 8 * n);
    if (o->sy.empty()) o->sy.resize(o->size);
    for (unsigned i = 0; i < n; ++i) { o->st[off + i] = 2; o->sy[off + i] = {e, (uint8_t)i}; }
    return;
  }
  for (unsigned i = 0; i < n; ++i) { if (v.um >> i & 1) o->st[off + i] = 1; else { o->st[off + i] = 0; o->d[off + i] = v.c >> (8 * i); } }
}
static void copyMem(State &s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return; uint32_t i1, o1, i2, o2; const Obj *so = resolve(s, src, n, false, i1, o1); 
  vector<uint8_t> d(so->d.begin() + o1, so->d.begin() + o1 + n), t(so->st.begin() + o1, so->st.begin() + o1 + n); vector<SymByte> y;
  if (!so->sy.empty()) y.assign(so->sy.begin() + o1, so->sy.begin() + o1 + n);
  resolve(s, dst, n, true, i2, o2); Obj *o = s.mem.mut(i2);
  if (!y.empty() && o->sy.empty()) o->sy.resize(o->size);
  std::copy(d.begin(), d.end(), o->d.begin() + o2); std::copy(t.begin(), t.end(), o->st.begin() + o2); if (!y.empty()) std::copy(y.begin(), y.end(), o->sy.begin() + o2);
}
static void pushFrame(State &s, FInfo *fi, int caller) {
  decode(fi); if (fi->calls++ == 0) { }
  if (s.fr.size() > 400) violate(s, "non-termination", "call depth exceeds 400 frames");
  int base = s.regs.size(); s.regs.resize(base + fi->nslots); s.fr.push_back({fi, 0, base, (int)s.allocas.size(), 0, caller});
}
static void freeObj(State &s, uint32_t id) { Obj *o = s.mem.mut(id); o->alive = false; }
static void popFrame(State &s) {
  Frame f = s.fr.back(); while ((int)s.allocas.size() > f.nalloca) { freeObj(s, s.allocas.back()); s.allocas.pop_back(); }
  s.regs.resize(f.base); if (f.excFree) freeObj(s, f.excFree); s.fr.pop_back();
}
static void takeEdge(State &s, const Edge &e) {
  if (!e.copies.empty()) { 
    static vector<Val> tmp; tmp.clear(); for (auto &c : e.copies) for (int i = 0; i < c[2]; ++i) tmp.push_back(get(s, c[1], i));
    size_t k = 0; for (auto &c : e.copies) for (int i = 0; i < c[2]; ++i) set(s, c[0], tmp[k++], i); }
  s.fr.back().pc = e.target;
}
static string cstr(State &s, uint64_t a) { string r; for (int i = 0; i < 4096; ++i) { Val v = loadLeaf(s, a + i, 8); if (!(v.c & 0xff)) break; r += (char)v.c; } return r; }
static const char *internStr(const string &x) { static std::set<string> t; return t.insert(x).first->c_str(); }

// ---------------------------------------------------------------- exceptions
static ExcInfo *findExc(State &s, uint64_t p) { uint32_t id = p >> 24; for (auto &e : s.exc) if (e.id == id) return &e; return nullptr; }
static string tiName(uint64_t ti) { for (auto &g : gaddr) if (g.second == ti) return g.first->getName().str(); return "?"; }
static bool tiMatch(uint64_t thrown, uint64_t clause) {
  if (clause == 0 || thrown == clause) return true;
  static std::map<string, string> base = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}};
  string t = tiName(thrown), c = tiName(clause);
  for (int i = 0; i < 8; ++i) {
    if (t == c) return true;
    auto it = base.find(t); if (it != base.end()) { t = it->second; continue; }
    auto gv = M->getNamedGlobal(t); if (!gv || gv->isDeclaration()) return false;
    auto in = dyn_cast<ConstantStruct>(gv->getInitializer()); if (!in || in->getNumOperands() != 3) return false;
    auto b = dyn_cast<GlobalValue>(in->getOperand(2)->stripPointerCasts()); if (!b) return false; t = b->getName().str();
  }
  return false;
}
static void unwind(State &s, uint64_t exc) {
  ExcInfo *ei = findExc(s, exc); if (!ei) violate(s, "invalid-exception", "unwinding with an object that is not a live exception"); uint64_t ti = ei->ti;
  string at = trace(s);
  while (!s.fr.empty()) {
    Frame &f = s.fr.back(); Op &op = f.f->ops[f.pc];
    if (op.o == oCall && op.unwind >= 0) {
      Op &lp = f.f->ops[op.ed[1].target]; bool hit = lp.cleanup;
      for (size_t i = 0; i < lp.clauseTI.size() && !hit; ++i) if (lp.clauseCatch[i] == 2 || tiMatch(ti, lp.clauseTI[i])) hit = true;
      if (hit) { s.inflight = exc; takeEdge(s, op.ed[1]); return; }
    }
    if (s.fr.size() == 1) violate(s, "uncaught-exception", "exception of type " + tiName(ti) + " leaves the harness; thrown" + at);
    popFrame(s);
  }
}
static void dropExcRef(State &s, uint64_t p, int callerPc) {
  ExcInfo *e = findExc(s, p); if (!e) violate(s, "invalid-exception", "reference dropped on a dead exception");
  if (--e->refs > 0) return;
  uint64_t d = e->dtor; uint32_t id = e->id; s.exc.erase(s.exc.begin() + (e - &s.exc[0]));
  if (d) { auto it = faddr.find(d); if (it != faddr.end() && !it->second->F->isDeclaration() && !it->second->F->getName().starts_with("_ZNSt15__exception_ptr12__dest_thunkISt")) {
      // run the destructor; the block is released when its frame returns
      pushFrame(s, it->second, callerPc); Frame &nf = s.fr.back(); s.regs[nf.base + it->second->argSlot[0]] = mk(p); nf.excFree = id; return; } }
  freeObj(s, id);
}

// ---------------------------------------------------------------- externals
// return true when the call completed (dst set) and pc must advance; false when control was transferred already
static Val newInput(State &s, const string &name, unsigned w, uint64_t lim) {
  unsigned idx = s.widths.size(); s.widths.push_back(w); E e = P.sym(idx, w); s.model.push_back(0); EV.set(&s.model);
  s.in.push_back({internStr(name), (uint8_t)w, e, 0, false});
  if (lim) addPC(s, P.bin(K::Ult, e, P.cst(lim, w)));
  return mkE(e);
}
static bool doFree(State &s, uint64_t p, const char *what) {
  if (!p) return true; uint32_t id = p >> 24; const Obj *o = s.mem.get(id);
  if (!o || o->kind != OHeap) violate(s, "invalid-free", string(what) + " of a pointer that is not a heap block");
  if (!o->alive) violate(s, "double-free", string(what) + " of an already released " + objDesc(o));
  if (p != o->base) violate(s, "invalid-free", string(what) + " of an interior pointer, offset " + std::to_string(p - o->base));
  freeObj(s, id); return true;
}
enum XF { X_UNKNOWN, X_INPUT8, X_INPUT32, X_INPUT64, X_RANGE, X_CHOICE, X_ASSUME, X_CHECK, X_FAIL, X_FORK, X_COVER, X_PARAM, X_MALLOC, X_FREE, X_FORK64,
  X_NOP, X_MEMCPY, X_MEMSET, X_MEMCMP, X_STRLEN, X_ASSERT, X_TERMINATE, X_TYPEID, X_ALLOCEXC, X_FREEEXC, X_THROW, X_BEGINCATCH, X_ENDCATCH, X_RETHROW, X_INITPRIM,
  X_EPCTOR, X_EPADD, X_EPREL, X_CURRENT, X_RETHROWEP, X_UNCAUGHT, X_GUARDACQ, X_RET0, X_UADDO, X_USUBO, X_UMULO, X_UMAX, X_UMIN, X_EXPECT, X_ISCONST, X_TRAP, X_PATHEND, X_EPSWAP, X_SYMBOLIC, X_GETEXC, X_EPCOPY, X_EPDTOR, X_EPASSIGN, X_MEMCHR, X_SMAX, X_SMIN, X_PTRTOEXPR, X_CTLZ, X_CTTZ, X_CTPOP, X_ABS, X_STRCMP };
static vector<int> extKind;
static int kindOf(const string &n) {
  static std::map<string, int> t = {
    {"nsym_u8", X_INPUT8}, {"nsym_u32", X_INPUT32}, {"nsym_u64", X_INPUT64}, {"nsym_range", X_RANGE}, {"nsym_choice", X_CHOICE}, {"nsym_assume", X_ASSUME},
    {"nsym_check", X_CHECK}, {"nsym_fail", X_FAIL}, {"nsym_fork", X_FORK}, {"nsym_fork64", X_FORK64}, {"nsym_cover", X_COVER}, {"nsym_param", X_PARAM}, {"nsym_malloc", X_MALLOC}, {"nsym_free", X_FREE}, {"nsym_end", X_PATHEND}, {"nsym_is_symbolic", X_SYMBOLIC},
    {"_Znwm", X_MALLOC}, {"_Znam", X_MALLOC}, {"_ZnwmRKSt9nothrow_t", X_MALLOC}, {"_ZnamRKSt9nothrow_t", X_MALLOC}, {"malloc", X_MALLOC}, {"_ZdlPv", X_FREE}, {"_ZdlPvm", X_FREE}, {"_ZdaPv", X_FREE}, {"_ZdaPvm", X_FREE}, {"free", X_FREE}, {"_ZdlPvRKSt9nothrow_t", X_FREE},
    {"llvm.memcpy", X_MEMCPY}, {"llvm.memmove", X_MEMCPY}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"llvm.memset", X_MEMSET}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"strlen", X_STRLEN},
    {"__assert_fail", X_ASSERT}, {"_ZSt9terminatev", X_TERMINATE}, {"abort", X_TERMINATE}, {"__cxa_pure_virtual", X_TERMINATE}, {"_ZSt17__throw_bad_allocv", X_TERMINATE}, {"_ZSt20__throw_length_errorPKc", X_TERMINATE}, {"exit", X_PATHEND}, {"__cxa_call_unexpected", X_TERMINATE}, {"__clang_call_terminate", X_TERMINATE}, {"__cxa_deleted_virtual", X_TERMINATE},
    {"llvm.trap", X_TERMINATE}, {"llvm.eh.typeid.for", X_TYPEID}, {"__cxa_allocate_exception", X_ALLOCEXC}, {"__cxa_free_exception", X_FREEEXC}, {"__cxa_throw", X_THROW}, {"__cxa_begin_catch", X_BEGINCATCH}, {"__cxa_end_catch", X_ENDCATCH}, {"__cxa_rethrow", X_RETHROW}, {"__cxa_init_primary_exception", X_INITPRIM}, {"__cxa_get_exception_ptr", X_GETEXC},
    {"_ZNSt15__exception_ptr13exception_ptrC1EPv", X_EPCTOR}, {"_ZNSt15__exception_ptr13exception_ptrC2EPv", X_EPCTOR}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", X_EPADD}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", X_EPREL},
    {"_ZSt17current_exceptionv", X_CURRENT}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", X_RETHROWEP}, {"_ZSt19uncaught_exceptionsv", X_UNCAUGHT}, {"_ZSt18uncaught_exceptionv", X_UNCAUGHT}, {"__cxa_guard_acquire", X_GUARDACQ}, {"__cxa_guard_release", X_NOP}, {"__cxa_guard_abort", X_NOP}, {"__cxa_atexit", X_RET0},
    {"llvm.lifetime.start", X_NOP}, {"llvm.lifetime.end", X_NOP}, {"llvm.experimental.noalias.scope.decl", X_NOP}, {"llvm.assume", X_NOP}, {"llvm.donothing", X_NOP}, {"llvm.stacksave", X_RET0}, {"llvm.stackrestore", X_NOP}, {"llvm.dbg.value", X_NOP}, {"llvm.dbg.declare", X_NOP}, {"llvm.dbg.label", X_NOP},
    {"llvm.uadd.with.overflow", X_UADDO}, {"llvm.usub.with.overflow", X_USUBO}, {"llvm.umul.with.overflow", X_UMULO}, {"llvm.umax", X_UMAX}, {"llvm.umin", X_UMIN}, {"llvm.smax", X_SMAX}, {"llvm.smin", X_SMIN}, {"llvm.expect", X_EXPECT}, {"llvm.is.constant", X_ISCONST}, {"llvm.ctlz", X_CTLZ}, {"llvm.cttz", X_CTTZ}, {"llvm.ctpop", X_CTPOP}, {"llvm.abs", X_ABS}, {"strcmp", X_STRCMP},
  };
  auto it = t.find(n); if (it != t.end()) return it->second;
  // constructors/destructors of the standard exception classes have no observable effect here
  static const char *nops[] = {"_ZNSt9exceptionD", "_ZNSt9bad_allocD", "_ZNSt12length_errorD", "_ZNSt12length_errorC", "_ZNSt11logic_errorC", "_ZNSt11logic_errorD", "_ZNSt13runtime_errorC", "_ZNSt13runtime_errorD", "_ZNSt12out_of_rangeC", "_ZNSt12out_of_rangeD", "_ZNSt16invalid_argument", "_ZNSt20bad_array_new_length"};
  for (auto p : nops) if (n.rfind(p, 0) == 0) return X_NOP;
  return X_UNKNOWN;
}
static bool external(State &s, Op &op) {
  while (extKind.size() < extNames.size()) extKind.push_back(kindOf(extNames[extKind.size()]));
  auto A = [&](int i) { return get(s, op.args[i]); };
  auto CA = [&](int i, unsigned w, const char *what) { Val v = A(i); concretize(s, v, w, what); return v.c; };
  auto ret = [&](const Val &v) { if (op.dst >= 0) set(s, op.dst, v); };
  switch (extKind[op.ext]) {
    case X_INPUT8: ret(newInput(s, cstr(s, A(0).c), 8, 0)); return true;
    case X_INPUT32: ret(newInput(s, cstr(s, A(0).c), 32, 0)); return true;
    case X_INPUT64: ret(newInput(s, cstr(s, A(0).c), 64, 0)); return true;
    case X_RANGE: { uint64_t n = CA(1, 32, "range"); ret(newInput(s, cstr(s, A(0).c), 32, n)); return true; }
    case X_CHOICE: {
      uint64_t n = CA(1, 32, "choice"); if (n == 0) { ++st.killed; throw PathEnd(); }
      Val v = newInput(s, cstr(s, A(0).c), 32, n);
      for (uint64_t k = n; k-- > 1;) { State *c = clone(s); addPC(*c, P.bin(K::Eq, v.e, P.cst(k, 32))); c->model.back() = k; c->regs[c->fr.back().base + op.dst] = mk(k);
        if (op.normal >= 0) takeEdge(*c, op.ed[0]); else c->fr.back().pc++; work.push_back(c); }
      addPC(s, P.bin(K::Eq, v.e, P.cst(0, 32))); ret(mk(0)); return true; }
    case X_ASSUME: { Val v = A(0); if (v.um) violate(s, "uninitialised", "assumption on an uninitialised value");
      if (!v.e) { if (!(v.c & 0xffffffff)) { ++st.killed; throw PathEnd(); } return true; }
      E c = P.notb(P.bin(K::Eq, v.e, P.cst(0, v.e->w))); if (c->k == K::Const) { if (!c->val) { ++st.killed; throw PathEnd(); } return true; }
      if (EV.eval(c)) { addPC(s, c); return true; }
      vector<uint64_t> m; int r = S.check(s.pc, c, &m, s.widths); if (r < 0) inconclusive(s, "solver returned unknown"); if (r == 0) { ++st.killed; throw PathEnd(); }
      addPC(s, c); s.model = m; EV.set(&s.model); return true; }
    case X_CHECK: { Val v = A(0); string msg; auto M2 = [&] { return cstr(s, A(1).c); }; ++st.checks;
      if (v.um) violate(s, "uninitialised", "checked value is uninitialised: " + M2());
      if (!v.e) { if (!(v.c & 0xffffffff)) violate(s, "check", M2()); return true; }
      E bad = P.bin(K::Eq, v.e, P.cst(0, v.e->w)); if (bad->k == K::Const) { if (bad->val) violate(s, "check", M2()); return true; }
      ++st.checksSym; if (EV.eval(bad)) violate(s, "check", M2());
      vector<uint64_t> m; int r = S.check(s.pc, bad, &m, s.widths); if (r < 0) inconclusive(s, "solver returned unknown");
      if (r == 1) violate(s, "check", M2(), &m); return true; }
    case X_FAIL: violate(s, "check", cstr(s, A(0).c));
    case X_FORK: { Val v = A(0); concretize(s, v, 32, "forked value"); ret(v); return true; }
    case X_FORK64: { Val v = A(0); concretize(s, v, 64, "forked value"); ret(v); return true; }
    case X_SYMBOLIC: { ret(mk(1)); return true; }
    case X_COVER: covers.insert(cstr(s, A(0).c)); return true;
    case X_PARAM: { auto it = params.find(cstr(s, A(0).c)); ret(it == params.end() ? A(1) : mk((uint32_t)it->second)); return true; }
    case X_MALLOC: { uint64_t n = CA(0, 64, "allocation size"); if (n > (8u << 20)) inconclusive(s, "allocation larger than 8 MiB reached the model heap"); uint32_t id = s.mem.add(n, OHeap, 16, true); ret(mk(s.mem.get(id)->base)); return true; }
    case X_FREE: { uint64_t p = CA(0, 64, "pointer"); doFree(s, p, "deallocation"); return true; }
    case X_PATHEND: { while (!s.fr.empty()) popFrame(s); throw PathEnd(); }
    case X_NOP: return true;
    case X_RET0: ret(mk(0)); return true;
    case X_EXPECT: ret(A(0)); return true;
    case X_ISCONST: ret(mk(0)); return true;
    case X_MEMCPY: { uint64_t n = CA(2, 64, "length"), d = CA(0, 64, "address"), sr = CA(1, 64, "address"); copyMem(s, d, sr, n); ret(mk(d)); return true; }
    case X_MEMSET: { uint64_t n = CA(2, 64, "length"), d = CA(0, 64, "address"); Val v = A(1); if (v.e) v = mkE(P.extract(v.e, 0, 8)); else v.c &= 0xff; for (uint64_t i = 0; i < n; ++i) storeLeaf(s, d + i, 8, v); ret(mk(d)); return true; }
    case X_MEMCMP: { uint64_t n = CA(2, 64, "length"), x = CA(0, 64, "address"), y = CA(1, 64, "address"); E r = P.cst(0, 32);
      for (uint64_t i = n; i-- > 0;) { Val a = loadLeaf(s, x + i, 8), b = loadLeaf(s, y + i, 8); if (a.um || b.um) violate(s, "uninitialised", "memcmp of uninitialised bytes"); E ea = toE(a, 8), eb = toE(b, 8); r = P.ite(P.bin(K::Eq, ea, eb), r, P.ite(P.bin(K::Ult, ea, eb), P.cst(0xffffffff, 32), P.cst(1, 32))); }
      ret(mkE(r)); return true; }
    case X_STRLEN: ret(mk(cstr(s, CA(0, 64, "address")).size())); return true;
    case X_ASSERT: violate(s, "assert", "assertion in the code failed: " + cstr(s, A(0).c) + " (" + cstr(s, A(1).c) + ")");
    case X_TERMINATE: violate(s, "terminate", "std::terminate/abort reached" + string(s.caught.empty() ? "" : " (an exception escaped a noexcept function: " + (findExc(s, s.caught.back().first) ? tiName(findExc(s, s.caught.back().first)->ti) : "?") + ")"));
    case X_TYPEID: { uint64_t ti = A(0).c; ret(mk((ti >> 24) & 0x7fffffff)); return true; }
    case X_ALLOCEXC: { uint64_t n = CA(0, 64, "size"); uint32_t id = s.mem.add(n, OExc, 16, true); s.exc.push_back({id, 0, 0, 0}); ret(mk(s.mem.get(id)->base)); return true; }
    case X_FREEEXC: { uint64_t p = A(0).c; ExcInfo *e = findExc(s, p); if (e) s.exc.erase(s.exc.begin() + (e - &s.exc[0])); freeObj(s, p >> 24); return true; }
    case X_INITPRIM: { uint64_t p = A(0).c; ExcInfo *e = findExc(s, p); e->ti = A(1).c; e->dtor = A(2).c; e->refs = 0; ret(mk(p)); return true; }
    case X_THROW: { uint64_t p = A(0).c; ExcInfo *e = findExc(s, p); e->ti = A(1).c; e->dtor = A(2).c; e->refs = 1; unwind(s, p); return false; }
    case X_GETEXC: ret(A(0)); return true;
    case X_BEGINCATCH: { uint64_t p = A(0).c; s.caught.push_back({p, false}); ret(mk(p)); return true; }
    case X_ENDCATCH: { if (s.caught.empty()) inconclusive(s, "end_catch without begin_catch"); uint64_t p = s.caught.back().first; s.caught.pop_back();
      size_t d = s.fr.size(); int pcv = s.fr.back().pc; dropExcRef(s, p, pcv); if (s.fr.size() > d) return false; return true; }
    case X_RETHROW: { if (s.caught.empty()) violate(s, "terminate", "rethrow with no active exception"); uint64_t p = s.caught.back().first; findExc(s, p)->refs++; unwind(s, p); return false; }
    case X_EPCTOR: { uint64_t t = A(0).c, p = CA(1, 64, "exception pointer"); storeLeaf(s, t, 64, mk(p)); if (p) { ExcInfo *e = findExc(s, p); if (!e) violate(s, "invalid-exception", "exception_ptr to a dead exception"); e->refs++; } return true; }
    case X_EPADD: { Val v = loadLeaf(s, A(0).c, 64); concretize(s, v, 64, "exception pointer"); if (v.c) { ExcInfo *e = findExc(s, v.c); if (!e) violate(s, "invalid-exception", "exception_ptr to a dead exception"); e->refs++; } return true; }
    case X_EPREL: { Val v = loadLeaf(s, A(0).c, 64); concretize(s, v, 64, "exception pointer"); if (!v.c) return true;
      storeLeaf(s, A(0).c, 64, mk(0)); size_t d = s.fr.size(); dropExcRef(s, v.c, s.fr.back().pc); return s.fr.size() == d; }
    case X_CURRENT: { uint64_t t = A(0).c; uint64_t p = s.caught.empty() ? 0 : s.caught.back().first; storeLeaf(s, t, 64, mk(p)); if (p) findExc(s, p)->refs++; return true; }
    case X_RETHROWEP: { Val v = loadLeaf(s, A(0).c, 64); concretize(s, v, 64, "exception pointer"); if (!v.c) violate(s, "terminate", "rethrow_exception of a null exception_ptr"); ExcInfo *e = findExc(s, v.c); if (!e) violate(s, "invalid-exception", "rethrow of a dead exception"); e->refs++; unwind(s, v.c); return false; }
    case X_UNCAUGHT: ret(mk(0)); return true;
    case X_GUARDACQ: { uint64_t p = A(0).c; Val v = loadLeaf(s, p, 8); if (v.c) { ret(mk(0)); return true; } storeLeaf(s, p, 8, mk(1)); ret(mk(1)); return true; }
    case X_UADDO: case X_USUBO: case X_UMULO: {
      unsigned w = leafW(op.I->getOperand(0)->getType()); Val a = A(0), b = A(1); if (a.um || b.um) { set(s, op.dst, undefV()); set(s, op.dst, undefV(), 1); return true; }
      E x = toE(a, w), y = toE(b, w), r, o; int k = extKind[op.ext];
      if (k == X_UADDO) { r = P.bin(K::Add, x, y); o = P.bin(K::Ult, r, x); } else if (k == X_USUBO) { r = P.bin(K::Sub, x, y); o = P.bin(K::Ult, x, y); }
      else { r = P.bin(K::Mul, x, y); 
        if (y->k == K::Const) o = y->val == 0 ? P.cst(0, 1) : P.bin(K::Ult, P.cst(maskw(w) / y->val, w), x);
        else if (x->k == K::Const) o = x->val == 0 ? P.cst(0, 1) : P.bin(K::Ult, P.cst(maskw(w) / x->val, w), y);
        else o = P.bin(K::And, P.notb(P.bin(K::Eq, y, P.cst(0, w))), P.notb(P.bin(K::Eq, P.bin(K::UDiv, r, y), x))); }
      set(s, op.dst, mkE(r)); set(s, op.dst, mkE(o), 1); return true; }
    case X_UMAX: case X_UMIN: case X_SMAX: case X_SMIN: { Val a = A(0), b = A(1); if (a.um || b.um) { ret(undefV()); return true; } E x = toE(a, op.w), y = toE(b, op.w); int k = extKind[op.ext]; E lt = P.bin(k == X_UMAX || k == X_UMIN ? K::Ult : K::Slt, x, y); bool mn = k == X_UMIN || k == X_SMIN; ret(mkE(P.ite(lt, mn ? x : y, mn ? y : x))); return true; }
    case X_CTLZ: case X_CTTZ: case X_CTPOP: { unsigned w = leafW(op.I->getType()); Val v = A(0); concretize(s, v, w, "bit count"); uint64_t x = v.c & maskw(w); int k = extKind[op.ext];
      ret(mk(k == X_CTPOP ? __builtin_popcountll(x) : !x ? w : k == X_CTTZ ? __builtin_ctzll(x) : __builtin_clzll(x) - (64 - w))); return true; }
    case X_ABS: { unsigned w = leafW(op.I->getType()); Val v = A(0); if (v.um) { ret(undefV()); return true; } E x = toE(v, w); ret(mkE(P.ite(P.bin(K::Slt, x, P.cst(0, w)), P.bin(K::Sub, P.cst(0, w), x), x))); return true; }
    case X_STRCMP: { string x = cstr(s, A(0).c), y = cstr(s, A(1).c); ret(mk((uint32_t)(x < y ? -1 : x > y))); return true; }
    default: inconclusive(s, "call of unmodelled external function " + extNames[op.ext]);
  }
}

// ---------------------------------------------------------------- the step loop
static Val binop(State &s, K k, unsigned w, const Val &a, const Val &b, bool exact) {
  if (a.um | b.um) {
    if (k == K::And && !a.e && !b.e) { // masking may remove uninitialised bytes
      if (!b.um) { uint8_t um = 0; for (int i = 0; i < 8; ++i) if ((a.um >> i & 1) && (b.c >> (8 * i) & 0xff)) um |= 1 << i; if (!um) return mk(a.c & b.c); } }
    if (k == K::LShr && !a.e && !b.um && !b.e && b.c % 8 == 0 && a.um != 0xff) { Val r = mk(b.c >= 64 ? 0 : a.c >> b.c); r.um = a.um >> (b.c / 8); return r; }
    return undefV();
  }
  if (!a.e && !b.e) { uint64_t r; if (ExprPool::fold(k, w, a.c, b.c, r)) return mk(r); violate(s, "division-by-zero", "integer division by zero"); }
  if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem)) {
    if (!b.e && b.c == 0) violate(s, "division-by-zero", "integer division by zero");
    if (b.e) { E z = P.bin(K::Eq, b.e, P.cst(0, w)); vector<uint64_t> m; if (z->k != K::Const) { int r = EV.eval(z) ? 1 : S.check(s.pc, z, &m, s.widths); if (r == 1) violate(s, "division-by-zero", "integer division by zero", m.empty() ? nullptr : &m); if (r < 0) inconclusive(s, "solver returned unknown"); } }
    if (k == K::SDiv && exact && !b.e && b.c && (b.c & (b.c - 1)) == 0) return mkE(P.bin(K::AShr, toE(a, w), P.cst(__builtin_ctzll(b.c), w)));
  }
  return mkE(P.bin(k, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned pred, unsigned w, const Val &a, const Val &b) {
  if (a.um | b.um) { Val v; v.um = 1; return v; }
  K k; bool sw = false, ng = false;
  switch (pred) {
    case CmpInst::ICMP_EQ: k = K::Eq; break; case CmpInst::ICMP_NE: k = K::Eq; ng = true; break;
    case CmpInst::ICMP_ULT: k = K::Ult; break; case CmpInst::ICMP_ULE: k = K::Ule; break; case CmpInst::ICMP_UGT: k = K::Ult; sw = true; break; case CmpInst::ICMP_UGE: k = K::Ule; sw = true; break;
    case CmpInst::ICMP_SLT: k = K::Slt; break; case CmpInst::ICMP_SLE: k = K::Sle; break; case CmpInst::ICMP_SGT: k = K::Slt; sw = true; break; default: k = K::Sle; sw = true; break;
  }
  const Val &x = sw ? b : a, &y = sw ? a : b;
  if (!x.e && !y.e) { uint64_t r; ExprPool::fold(k, w, x.c, y.c, r); return mk(r ^ ng); }
  E e = P.bin(k, toE(x, w), toE(y, w)); if (ng) e = P.notb(e); return mkE(e);
}
static void doCall(State &s, FInfo *fi, Op &op) {
  int cbase = s.fr.back().base; pushFrame(s, fi, 0); int nb = s.fr.back().base;
  size_t n = std::min(op.args.size(), fi->argSlot.size());
  for (size_t i = 0; i < n; ++i) for (unsigned j = 0; j < fi->argN[i]; ++j) { int r = op.args[i]; s.regs[nb + fi->argSlot[i] + j] = r >= 0 ? s.regs[cbase + r + j] : pool[~r + j]; }
}
static void run(State *sp) {
  State &s = *sp; EV.set(&s.model);
  try {
    for (;;) {
      Frame &f = s.fr.back(); Op &op = f.f->ops[f.pc];
      ++st.steps; if (++s.steps > maxSteps) violate(s, "non-termination", "path exceeds " + std::to_string(maxSteps) + " instructions");
      if ((s.steps & 0x3ff) == 0) { if (sh && sh->stop) throw PathEnd(); if (now() - T0 > timeoutS) inconclusive(s, "time budget exhausted"); }
      switch (op.o) {
        case oBin: set(s, op.dst, binop(s, op.k, op.w, get(s, op.a), get(s, op.b), op.exact)); f.pc++; break;
        case oICmp: set(s, op.dst, icmp(op.pred, op.w, get(s, op.a), get(s, op.b))); f.pc++; break;
        case oZExt: { Val v = get(s, op.a); if (v.um) { if (op.w2 < 8 || v.um == 0xff) v = undefV(); } else if (v.e) v = mkE(P.zext(v.e, op.w)); set(s, op.dst, v); f.pc++; break; }
        case oSExt: { Val v = get(s, op.a); if (v.um) v = undefV(); else if (v.e) v = mkE(P.sextE(v.e, op.w)); else v.c = (uint64_t)sext(v.c, op.w2) & maskw(op.w); set(s, op.dst, v); f.pc++; break; }
        case oTrunc: { Val v = get(s, op.a); if (v.um) { if (v.e) v = undefV(); else { unsigned nb = (op.w + 7) / 8; v.um &= (1 << nb) - 1; v.c &= maskw(op.w); if (v.um && op.w < 8) v.um = 1; } } else if (v.e) v = mkE(P.extract(v.e, 0, op.w)); else v.c &= maskw(op.w); set(s, op.dst, v); f.pc++; break; }
        case oMove: { for (int i = 0; i < op.n; ++i) set(s, op.dst, get(s, op.a, i), i); f.pc++; break; }
        case oLoad: { Val p = get(s, op.a); concretize(s, p, 64, "an address"); if (p.c & (op.c - 1)) misaligned(s, p.c); if (op.leaves.size() == 1) set(s, op.dst, loadLeaf(s, p.c, op.leaves[0].second)); else { for (size_t i = 0; i < op.leaves.size(); ++i) set(s, op.dst, loadLeaf(s, p.c + op.leaves[i].first, op.leaves[i].second), i); } f.pc++; break; }
        case oStore: { Val p = get(s, op.a); concretize(s, p, 64, "an address"); if (p.c & (op.c - 1)) misaligned(s, p.c); for (size_t i = 0; i < op.leaves.size(); ++i) storeLeaf(s, p.c + op.leaves[i].first, op.leaves[i].second, get(s, op.b, i)); f.pc++; break; }
        case oGEP: { Val p = get(s, op.a); bool um = p.um; E e = p.e; uint64_t c = p.c + op.imm;
          if (e) e = P.bin(K::Add, e, P.cst(op.imm, 64));
          for (auto &g : op.gi) { Val ix = get(s, g.ref); um |= ix.um; if (!ix.e) { uint64_t d = (uint64_t)sext(ix.c, g.w) * g.scale; c += d; if (e) e = P.bin(K::Add, e, P.cst(d, 64)); } else { E x = P.bin(K::Mul, P.sextE(ix.e, 64), P.cst(g.scale, 64)); e = P.bin(K::Add, e ? e : P.cst(c, 64), x); } }
          set(s, op.dst, um ? undefV() : e ? mkE(e) : mk(c)); f.pc++; break; }
        case oAlloca: { Val n = get(s, op.a); concretize(s, n, op.w, "alloca count"); uint32_t id = s.mem.add(op.imm * n.c, OStack, op.c, true); s.allocas.push_back(id); set(s, op.dst, mk(s.mem.get(id)->base)); f.pc++; break; }
        case oNop: f.pc++; break;
        case oRMW: { Val p = get(s, op.a); concretize(s, p, 64, "an address"); Val old = loadLeaf(s, p.c, op.w), x = get(s, op.b); storeLeaf(s, p.c, op.w, op.imm ? x : binop(s, op.k, op.w, old, x, false)); set(s, op.dst, old); f.pc++; break; }
        case oCmpX: { Val p = get(s, op.a); concretize(s, p, 64, "an address"); Val old = loadLeaf(s, p.c, op.w); Val eq = icmp(CmpInst::ICMP_EQ, op.w, old, get(s, op.b)); bool b = decide(s, eq, [&](State &, bool) {}); if (b) storeLeaf(s, p.c, op.w, get(s, op.c)); set(s, op.dst, old); set(s, op.dst, mk(b), 1); f.pc++; break; }
        case oBr: takeEdge(s, op.ed[0]); break;
        case oCondBr: { Val c = get(s, op.a); bool b = decide(s, c, [&](State &o, bool v) { takeEdge(o, op.ed[v ? 0 : 1]); }); takeEdge(s, op.ed[b ? 0 : 1]); break; }
        case oSwitch: { Val v = get(s, op.a); if (v.um) violate(s, "uninitialised", "switch on an uninitialised value");
          auto pick = [&](uint64_t x) { for (size_t i = 0; i < op.cases.size(); ++i) if (op.cases[i] == x) return (int)i + 1; return 0; };
          if (!v.e) { takeEdge(s, op.ed[pick(v.c)]); break; }
          uint64_t x = EV.eval(v.e); int p = pick(x); E cond;
          if (p) cond = P.bin(K::Eq, v.e, P.cst(x, op.w)); else { cond = P.cst(1, 1); for (auto cv : op.cases) cond = P.bin(K::And, cond, P.notb(P.bin(K::Eq, v.e, P.cst(cv, op.w)))); }
          E neg = P.notb(cond); if (neg->k != K::Const) { vector<uint64_t> m; int r = S.check(s.pc, neg, &m, s.widths); if (r < 0) inconclusive(s, "solver returned unknown"); if (r == 1) { State *n = clone(s); addPC(*n, neg); n->model = m; work.push_back(n); addPC(s, cond); EV.set(&s.model); } }
          takeEdge(s, op.ed[p]); break; }
        case oSelect: { Val c = get(s, op.a); 
          if (c.um) { set(s, op.dst, undefV()); f.pc++; break; }
          if (!c.e) { for (int i = 0; i < op.n; ++i) set(s, op.dst, get(s, (c.c & 1) ? op.b : op.c, i), i); f.pc++; break; }
          Val x = get(s, op.b), y = get(s, op.c);
          if (op.n == 1 && op.w && !x.um && !y.um) { set(s, op.dst, mkE(P.ite(c.e, toE(x, op.w), toE(y, op.w)))); f.pc++; break; }
          bool b = decide(s, c, [&](State &, bool) {}); for (int i = 0; i < op.n; ++i) set(s, op.dst, get(s, b ? op.b : op.c, i), i); f.pc++; break; }
        case oExtractV: for (int i = 0; i < op.n; ++i) set(s, op.dst, get(s, op.a, op.imm + i), i); f.pc++; break;
        case oInsertV: { for (int i = 0; i < op.n; ++i) if (!(i >= (int)op.imm && i < (int)op.imm + op.c)) set(s, op.dst, get(s, op.a, i), i); for (int i = 0; i < op.c; ++i) set(s, op.dst, get(s, op.b, i), op.imm + i); f.pc++; break; }
        case oRet: {
          Val rv[16]; int n = op.n; if (n > 16) inconclusive(s, "aggregate return too large"); for (int i = 0; i < n; ++i) rv[i] = get(s, op.a, i);
          bool plain = f.excFree == 0, startup = f.caller == -1;
          popFrame(s);
          if (s.fr.empty()) throw PathEnd();
          if (startup) break;
          Frame &cf = s.fr.back(); Op &co = cf.f->ops[cf.pc];
          if (plain && co.dst >= 0) for (int i = 0; i < n && i < co.n; ++i) set(s, co.dst, rv[i], i);
          if (co.normal >= 0) takeEdge(s, co.ed[0]); else cf.pc++;
          break; }
        case oCall: {
          FInfo *ci = op.callee;
          if (!ci && op.ext < 0) {
            Val fp = get(s, op.a); concretize(s, fp, 64, "a function pointer"); auto it = faddr.find(fp.c);
            if (it == faddr.end()) { uint32_t id = fp.c >> 24; const Obj *o = s.mem.get(id); if (o && !o->alive) violate(s, "use-after-free", "call through a dead object"); violate(s, "invalid-pointer", "indirect call to a non-function address"); }
            ci = it->second;
            if (ci->F->isDeclaration()) { string nm = ci->F->getName().str(); auto r = extIdx.emplace(nm, (int)extNames.size()); if (r.second) extNames.push_back(nm); op.ext = r.first->second; bool adv = external(s, op); op.ext = -1; if (adv) { Frame &g = s.fr.back(); if (op.normal >= 0) takeEdge(s, op.ed[0]); else g.pc++; } break; }
          }
          if (ci) { doCall(s, ci, op); break; }
          if (external(s, op)) { if (op.normal >= 0) takeEdge(s, op.ed[0]); else s.fr.back().pc++; }
          break; }
        case oLandingPad: {
          uint64_t ti = findExc(s, s.inflight)->ti; uint64_t sel = 0;
          for (size_t i = 0; i < op.clauseTI.size(); ++i) { if (op.clauseCatch[i] == 2) { sel = (uint64_t)-1; break; } if (tiMatch(ti, op.clauseTI[i])) { sel = op.clauseTI[i] ? (op.clauseTI[i] >> 24) & 0x7fffffff : 0x7ffffffe; break; } }
          set(s, op.dst, mk(s.inflight)); set(s, op.dst, mk(sel & 0xffffffff), 1); f.pc++; break; }
        case oResume: { uint64_t p = get(s, op.a).c; if (s.fr.size() == 1) violate(s, "uncaught-exception", "exception leaves the harness"); popFrame(s); unwind(s, p); break; }
        case oUnreach: violate(s, "unreachable", "undefined behaviour: unreachable code executed");
        default: { string t; raw_string_ostream os(t); op.I->print(os); inconclusive(s, "unsupported instruction:" + t); }
      }
    }
  } catch (PathEnd &) {}
  bool ended = s.fr.empty();
  if (ended && viols.empty()) {
    // end of path: nothing allocated on the path may still be alive
    for (uint32_t i = initMem.next; i < s.mem.next; ++i) { auto o = s.mem.get(i); if (o && o->alive && (o->kind == OHeap || o->kind == OExc)) {
        Violation v; v.kind = "leak"; v.msg = "a " + objDesc(o) + " is still allocated at the end of the run"; EV.set(&s.model); for (auto &x : s.in) { v.in.push_back(x); v.vals.push_back(x.e ? EV.eval(x.e) : x.c); } viols.push_back(v); if (sh) sh->stop = 1; break; } }
    ++st.paths; if (sh) sh->paths++;
    if (!s.pc.empty()) ++st.symPaths;
    if (samples.size() < 3 || (st.paths % 997 == 0 && samples.size() < 6)) { EV.set(&s.model); string t; for (auto &x : s.in) t += string(t.empty() ? "" : " ") + x.name + "=" + std::to_string(x.e ? EV.eval(x.e) : x.c); samples.push_back(t); }
  }
  st.maxDepth = std::max<uint64_t>(st.maxDepth, s.pc.size()); st.maxVars = std::max<uint64_t>(st.maxVars, s.widths.size());
}

// ---------------------------------------------------------------- output
static string esc(const string &x) { string r; for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void noteFunctions() {
  for (auto &p : finfo) if (p.second->calls) { auto f = p.second->F; string file; if (auto sp = f->getSubprogram()) file = sp->getFilename().str(); auto q = file.find("/nestl/"); if (q == string::npos) continue; string nm = f->getSubprogram()->getName().str(); auto lt = nm.find('<'); if (lt != string::npos && nm.rfind("operator", 0) != 0) nm = nm.substr(0, lt); functionsSeen.insert(file.substr(q + 1) + ":" + nm); }
}
static void writeResult(FILE *o, bool complete, size_t left) {
  noteFunctions();
  fprintf(o, "{\"complete\":%s,\"left\":%zu,\"paths\":%llu,\"sym_paths\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"steps\":%llu,\"checks\":%llu,\"checks_symbolic\":%llu,\"mem_checks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_constraints\":%llu,\"max_vars\":%llu,\"wall_s\":%.3f,",
    complete ? "true" : "false", left, (unsigned long long)st.paths, (unsigned long long)st.symPaths, (unsigned long long)st.killed, (unsigned long long)st.forks, (unsigned long long)st.steps, (unsigned long long)st.checks, (unsigned long long)st.checksSym, (unsigned long long)st.memChecks, (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown, S.secs, (unsigned long long)st.maxDepth, (unsigned long long)st.maxVars, now() - T0);
  auto arr = [&](const char *n, const std::set<string> &x) { fprintf(o, "\"%s\":[", n); bool f = true; for (auto &i : x) { fprintf(o, "%s\"%s\"", f ? "" : ",", esc(i).c_str()); f = false; } fprintf(o, "],"); };
  arr("covers", covers); arr("expect_covers", expectCovers); arr("functions", functionsSeen); arr("samples", std::set<string>(samples.begin(), samples.end()));
  fprintf(o, "\"inconclusive\":{"); bool f = true; for (auto &i : inconc) { fprintf(o, "%s\"%s\":%llu", f ? "" : ",", esc(i.first).c_str(), (unsigned long long)i.second); f = false; }
  fprintf(o, "},\"violations\":["); f = true;
  for (auto &v : viols) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":[", f ? "" : ",", esc(v.kind).c_str(), esc(v.msg).c_str(), esc(v.where).c_str()); f = false;
    for (size_t i = 0; i < v.in.size(); ++i) fprintf(o, "%s[\"%s\",%llu]", i ? "," : "", esc(v.in[i].name).c_str(), (unsigned long long)v.vals[i]); fprintf(o, "]}"); }
  fprintf(o, "]}\n"); fflush(o);
}

int main(int argc, char **argv) {
  string bc, entry = "harness", out;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--timeout") timeoutS = atof(argv[++i]);
    else if (a == "--max-steps") maxSteps = atoll(argv[++i]); else if (a == "--split") splitW = atoi(argv[++i]); else if (a == "--query-timeout-ms") S.timeoutMs = atoi(argv[++i]);
    else if (a == "-P") { string p = nx(); auto q = p.find('='); params[p.substr(0, q)] = atoll(p.c_str() + q + 1); } else bc = a;
  }
  T0 = now(); SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("nsym", errs()); return 3; } DL = &M->getDataLayout();
  for (auto &f : *M) addrOf(&f);
  for (auto &g : M->globals()) if (!g.getName().starts_with("llvm.")) addrOf(&g);
  for (auto &g : M->globals()) initGlobal(&g);
  Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "nsym: no entry %s\n", entry.c_str()); return 3; }
  S.init(); sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->nextIdx = 0; sh->stop = 0; sh->paths = 0;
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  // every nsym_cover label mentioned in the module that is reachable from the entry must be reached by some path
  { std::set<const Function *> seen; vector<const Function *> q{F}; seen.insert(F);
    while (!q.empty()) { auto f = q.back(); q.pop_back(); for (auto &B : *f) for (auto &I : B) { for (auto &u : I.operands()) if (auto g = dyn_cast<Function>(u->stripPointerCasts())) if (!g->isDeclaration() && seen.insert(g).second) q.push_back(g);
      if (auto cb = dyn_cast<CallBase>(&I)) if (auto cf = cb->getCalledFunction()) if (cf->getName() == "nsym_cover") if (auto gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (auto cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) expectCovers.insert(cd->getAsCString().str()); } } }
  State *s0 = new State(); s0->mem = initMem; initMem.next = s0->mem.next;
  // global constructors, then the entry
  pushFrame(*s0, infoOf(F), 0);
  vector<Function *> ctors;
  if (auto gc = M->getNamedGlobal("llvm.global_ctors")) if (auto ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &e : ca->operands()) if (auto f = dyn_cast<Function>(cast<ConstantStruct>(e)->getOperand(1)->stripPointerCasts())) if (f->getName().find("nsym") == StringRef::npos) ctors.push_back(f);
  for (size_t i = ctors.size(); i-- > 0;) pushFrame(*s0, infoOf(ctors[i]), -1);
  initMem = Mem(); initMem.next = s0->mem.next;
  work.push_back(s0);
  // breadth-first until there is enough work to share, then fork workers
  while (!work.empty() && (jobs <= 1 || (int)work.size() < splitW) && !sh->stop && now() - T0 < timeoutS) {
    State *s; if (jobs <= 1) { s = work.back(); work.pop_back(); } else { s = work.front(); work.pop_front(); }
    run(s); delete s;
  }
  if (jobs <= 1 || work.empty() || sh->stop) { writeResult(o, work.empty() && inconc.empty(), work.size()); return viols.empty() ? 0 : 1; }
  vector<State *> init(work.begin(), work.end()); work.clear();
  writeResult(o, true, 0); fflush(o);
  vector<pid_t> pids; vector<string> files;
  for (int j = 0; j < jobs; ++j) {
    string fn = out + ".w" + std::to_string(j); files.push_back(fn); pid_t p = fork();
    if (p == 0) {
      st = Stats(); S.queries = S.sat = S.unsat = S.unknown = 0; S.secs = 0; inconc.clear(); samples.clear(); covers.clear(); viols.clear();
      size_t left = 0;
      for (;;) { int i = sh->nextIdx++; if (i >= (int)init.size()) break; work.push_back(init[i]);
        while (!work.empty()) { if (sh->stop || now() - T0 > timeoutS) { left += work.size(); break; } State *s = work.back(); work.pop_back(); run(s); delete s; }
        if (left) { work.clear(); break; } }
      if (now() - T0 > timeoutS && sh->nextIdx < (int)init.size()) left++;
      FILE *w = fopen(fn.c_str(), "w"); writeResult(w, left == 0 && inconc.empty(), left); fclose(w); _exit(viols.empty() ? 0 : 1);
    }
    pids.push_back(p);
  }
  int rc = 0; for (size_t j = 0; j < pids.size(); ++j) { int stt; waitpid(pids[j], &stt, 0); if (WIFEXITED(stt)) { int c = WEXITSTATUS(stt); if (c == 1 && rc == 0) rc = 1; if (c > 1) rc = 3; } else rc = 3; }
  for (auto &fn : files) { std::ifstream is(fn); string l; while (std::getline(is, l)) fprintf(o, "%s\n", l.c_str()); unlink(fn.c_str()); }
  fflush(o); return rc;
}
