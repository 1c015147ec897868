#include "interp.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Linker/Linker.h>
#include <chrono>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <cmath>
#include <sys/resource.h>

using namespace llvm;

struct MemError : std::runtime_error { std::string kind; MemError(std::string k, std::string m) : std::runtime_error(m), kind(k) {} };

struct Interp {
  Module& M; const DataLayout& DL;
  std::vector<std::string> repoPrefix;
  std::deque<DFunc> dfuncs; std::unordered_map<const Function*, DFunc*> fmap;
  std::vector<Object*> objs{nullptr};
  std::unordered_map<const GlobalValue*, uint32_t> gobj;
  std::vector<Journal> journals;
  std::vector<Frame*> stack;
  Val pc = vBool(true), rpc = vBool(true);
  int muted = 0; bool widen = false; bool allowThrow = false; int catchDepth = 0; std::string lastThrow; size_t catchBase = 0; int caughtFrame = -1; int caughtSel = 0; std::map<std::string,int> typeIds;
  EntryResult* res = nullptr; std::string instance; std::vector<std::pair<std::string,std::string>> labels;
  std::vector<std::string> locNames{""}; std::map<std::string, uint32_t> locIds;
  long stepLimit = 4000000000L; long steps = 0; int depth = 0;
  double tol = 1e-11;
  bool expectThrow = false; std::string expectType;
  bool initPhase = false;
  bool trace = false;
  std::unordered_map<std::string, uint32_t> opaqueTab;
  std::unordered_map<uint64_t, uint32_t> udivTab;
  // quadrature accumulation
  struct QP { std::vector<long double> x; long double w; };
  std::vector<QP> rule;
  std::vector<Q> hp; // high precision numbers
  std::vector<std::pair<Q,Q>> hprule;
  // concurrency effects
  uint32_t curScope = 0; struct Scope { uint32_t parent; std::string name; Key flag; }; std::vector<Scope> scopes{{0, "none", {0,0}}};
  bool effects = false; uint32_t effObjStart = 0; std::set<uint32_t> passed; std::map<Key, uint32_t> onceScope; std::map<Key, std::vector<uint32_t>> lockScopes; std::multiset<Key> readHeld; bool atomicAccess = false; uint32_t thread = 0; std::map<Key, uint32_t> tlsObj; struct Atomic { bool& b; bool o; Atomic(bool& b, bool v) : b(b), o(b) { b = v; } ~Atomic() { b = o; } }; long effWrites = 0, effReads = 0; bool effWarm = false;
  std::set<Key> heldMutex;

  Interp(Module& m) : M(m), DL(m.getDataLayout()) {}

  // ---- locations -----------------------------------------------------------
  bool isRepo(const std::string& p) { for (auto& r : repoPrefix) if (p.compare(0, r.size(), r) == 0) return true; return false; }
  static std::string fileOf(const DIScope* s) { std::string f = s->getFilename().str(); if (!f.empty() && f[0] != '/') f = s->getDirectory().str() + "/" + f; return norm(f); }
  static std::string norm(const std::string& f) {
    std::vector<std::string> parts; std::stringstream ss(f); std::string p;
    while (std::getline(ss, p, '/')) { if (p.empty() || p == ".") continue; if (p == ".." && !parts.empty()) parts.pop_back(); else parts.push_back(p); }
    std::string r; for (auto& x : parts) r += "/" + x; return r;
  }
  uint32_t locId(const std::string& s) { auto it = locIds.find(s); if (it != locIds.end()) return it->second; locNames.push_back(s); return locIds[s] = locNames.size() - 1; }
  uint32_t repoLoc(const Instruction* I) {
    for (const DILocation* d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
      std::string f = fileOf(d->getScope()); if (isRepo(f)) { auto sp = d->getScope()->getSubprogram(); return locId(f + ":" + std::to_string(d->getLine()) + (sp ? " in " + sp->getName().str() : "")); }
    }
    return 0;
  }
  std::string anyLoc(const Instruction* I) { if (auto* d = I->getDebugLoc().get()) return fileOf(d->getScope()) + ":" + std::to_string(d->getLine()); return "?"; }
  uint32_t curLoc() { for (auto it = stack.rbegin(); it != stack.rend(); ++it) { if ((*it)->cur && (*it)->cur->loc) return (*it)->cur->loc; } return 0; }
  std::string harnessLoc() { for (auto it = stack.rbegin(); it != stack.rend(); ++it) if ((*it)->cur) { for (const DILocation* d = (*it)->cur->I->getDebugLoc().get(); d; d = d->getInlinedAt()) { std::string f = fileOf(d->getScope()); if (f.find("/harness/") != std::string::npos) return f + ":" + std::to_string(d->getLine()); } } return "?"; }
  std::string backtrace(int n = 6) {
    std::string s; for (auto it = stack.rbegin(); it != stack.rend() && n > 0; ++it) if ((*it)->cur && (*it)->cur->loc) { auto& l = locNames[(*it)->cur->loc]; if (s.size() >= l.size() && s.compare(s.size() - l.size(), l.size(), l) == 0) continue; if (!s.empty()) s += " <- "; s += l; --n; }
    if (s.empty()) s = harnessLoc();
    return s;
  }

  // ---- objects ---------------------------------------------------------------
  uint32_t newObj(OK kind, int64_t size) { Object* o = new Object; o->kind = kind; o->size = size; objs.push_back(o); o->loc = kind == OK::Heap ? curLoc() : 0; o->birthScope = curScope; return objs.size() - 1; }
  uint32_t globalObj(const GlobalValue* g) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(ga->getAliasee()->stripPointerCasts());
    auto it = gobj.find(g); if (it != gobj.end()) return it->second;
    uint32_t id;
    if (isa<Function>(g)) { id = newObj(OK::Fn, 1); objs[id]->site = g; gobj[g] = id; }
    else {
      auto* gv = cast<GlobalVariable>(g);
      bool ext = !gv->hasInitializer();
      id = newObj(ext ? OK::Ext : OK::Global, ext ? 4096 : DL.getTypeAllocSize(gv->getValueType()));
      gobj[g] = id; Object* o = objs[id]; o->site = g; o->tls = gv->isThreadLocal(); o->constant = gv->isConstant();
      if (!ext) initConst(o, 0, gv->getInitializer());
    }
    return id;
  }
  void initConst(Object* o, int64_t off, const Constant* c) {
    if (isa<ConstantAggregateZero>(c)) { int64_t n = DL.getTypeAllocSize(c->getType()); if (off == 0 && n >= o->size) { o->zero = true; return; } zeroFill(o, off, n); return; }
    if (isa<UndefValue>(c)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL.getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) initConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { int64_t s = DL.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(o, off + i * s, ca->getOperand(i)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { int64_t s = DL.getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); ++i) initConst(o, off + i * s, cd->getElementAsConstant(i)); return; }
    if (auto* cv = dyn_cast<ConstantVector>(c)) { int64_t s = DL.getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); ++i) initConst(o, off + i * s, cv->getOperand(i)); return; }
    Cell cell; cell.v = constVal(c); cell.size = DL.getTypeStoreSize(c->getType()); o->c[off] = cell;
  }
  void zeroFill(Object* o, int64_t off, int64_t n) { while (n > 0) { int s = n >= 8 && off % 8 == 0 ? 8 : n >= 4 && off % 4 == 0 ? 4 : 1; Cell c; c.v = vInt(0, s * 8); c.size = s; o->c[off] = c; off += s; n -= s; } }
  static unsigned tyBits(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; if (t->isFP128Ty()) return 128; if (t->isPointerTy()) return 64; return 0; }
  static long double apToLD(const APFloat& f) {
    bool li; APFloat g = f; g.convert(APFloat::x87DoubleExtended(), APFloat::rmNearestTiesToEven, &li);
    APInt b = g.bitcastToAPInt(); long double d = 0; memcpy(&d, b.getRawData(), 10); return d;
  }
  Val constVal(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) throw Undecided("wide integer constant"); } return vInt(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0), std::min(64u, ci->getBitWidth())); }
    if (auto* cf = dyn_cast<ConstantFP>(c)) return vFp(apToLD(cf->getValueAPF()), tyBits(c->getType()));
    if (isa<ConstantPointerNull>(c)) return vInt(0, 64);
    if (isa<UndefValue>(c)) { if (auto* st = dyn_cast<StructType>(c->getType())) return vAgg(std::vector<Val>(st->getNumElements())); if (auto* at = dyn_cast<ArrayType>(c->getType())) return vAgg(std::vector<Val>(at->getNumElements())); if (auto* vt = dyn_cast<FixedVectorType>(c->getType())) return vAgg(std::vector<Val>(vt->getNumElements())); return Val(); }
    if (auto* gv = dyn_cast<GlobalValue>(c)) return vPtr(globalObj(gv), 0);
    if (auto* z = dyn_cast<ConstantAggregateZero>(c)) { std::vector<Val> v; unsigned n = z->getElementCount().getKnownMinValue(); for (unsigned i = 0; i < n; ++i) v.push_back(constVal(z->getElementValue(i))); return vAgg(std::move(v)); }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (auto& o : ca->operands()) v.push_back(constVal(cast<Constant>(o))); return vAgg(std::move(v)); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i))); return vAgg(std::move(v)); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->isCast()) return constVal(ce->getOperand(0));
      if (auto* g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!g->accumulateConstantOffset(DL, off)) throw Undecided("constant gep"); Val b = constVal(cast<Constant>(g->getPointerOperand())); return ptrAdd(b, off.getSExtValue()); }
      if (ce->getOpcode() == Instruction::Sub) { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return arith(Instruction::Sub, a, b, 64, false); }
    }
    std::string s; raw_string_ostream os(s); c->print(os); throw Undecided("unsupported constant " + s.substr(0, 80));
  }
  static Val ptrAdd(const Val& p, int64_t d) { Val r = p; if (p.k == K::Ptr) r.p.off += d; else if (p.k == K::Int) r = vInt(p.i + d, 64); else if (p.k == K::Undef || p.k == K::Top) return p; else throw Undecided("pointer arithmetic on symbolic value"); return r; }

  // ---- decoding ---------------------------------------------------------------
  DFunc* decode(const Function* F) {
    auto it = fmap.find(F); if (it != fmap.end()) return it->second;
    dfuncs.emplace_back(); DFunc* d = &dfuncs.back(); fmap[F] = d; d->F = F;
    d->name = demangle(F->getName().str());
    if (auto* sp = F->getSubprogram()) { std::string f = fileOf(sp); d->inRepo = isRepo(f); d->inHarness = f.find("/harness/") != std::string::npos; if (d->inRepo) d->name = f.substr(f.find("/python/dune/") != std::string::npos ? f.find("/python/dune/") + 1 : f.find("/dune/") == std::string::npos ? 0 : f.find("/dune/") + 1) + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str(); }
    std::unordered_map<const Value*, int> reg; int n = 0;
    for (auto& a : F->args()) reg[&a] = n++;
    std::unordered_map<const BasicBlock*, int> bi; int nb = 0;
    for (auto& b : *F) { bi[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++; }
    d->nregs = n; d->blocks.resize(nb);
    auto opd = [&](const Value* v) { Opd o; auto r = reg.find(v); if (r != reg.end()) o.reg = r->second; else if (auto* c = dyn_cast<Constant>(v)) o.c = constVal(c); return o; };
    for (auto& b : *F) {
      DBlock& db = d->blocks[bi[&b]];
      for (auto& i : b) {
        if (auto* phi = dyn_cast<PHINode>(&i)) {
          ++db.nphi;
          for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) d->phiIn[{bi[phi->getIncomingBlock(k)], bi[&b]}].resize(db.nphi, Opd());
          for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) d->phiIn[{bi[phi->getIncomingBlock(k)], bi[&b]}][db.nphi - 1] = opd(phi->getIncomingValue(k));
          DInst x; x.I = &i; x.op = i.getOpcode(); x.dst = reg[&i]; db.insts.push_back(std::move(x)); continue;
        }
        if (isa<DbgInfoIntrinsic>(&i)) continue;
        DInst x; x.I = &i; x.op = i.getOpcode(); x.loc = repoLoc(&i);
        if (!i.getType()->isVoidTy()) x.dst = reg[&i];
        x.ty = i.getType(); x.bits = tyBits(x.ty); x.isFp = x.ty->isFloatingPointTy();
        if (i.getNumOperands()) x.obits = tyBits(i.getOperand(0)->getType());
        if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
          x.ops.push_back(opd(g->getPointerOperand()));
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            if (StructType* st = gi.getStructTypeOrNull()) x.cst += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
            else { int64_t s = DL.getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) x.cst += s * ci->getSExtValue(); else { x.ops.push_back(opd(gi.getOperand())); x.scale.push_back(s); } }
          }
        } else if (auto* cb = dyn_cast<CallBase>(&i)) {
          for (auto& a : cb->args()) if (!isa<MetadataAsValue>(a)) x.ops.push_back(opd(a)); else x.ops.push_back(Opd());
          const Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
          x.callee = dyn_cast<Function>(cv);
          if (!x.callee) x.ops.push_back(opd(cb->getCalledOperand()));
          if (isa<InvokeInst>(&i)) x.cst = 1;
        } else if (auto* al = dyn_cast<AllocaInst>(&i)) { x.cst = DL.getTypeAllocSize(al->getAllocatedType()); x.ops.push_back(opd(al->getArraySize())); }
        else if (auto* st = dyn_cast<StoreInst>(&i)) { x.ty = st->getValueOperand()->getType(); x.bits = tyBits(x.ty); x.ops.push_back(opd(st->getValueOperand())); x.ops.push_back(opd(st->getPointerOperand())); }
        else if (isa<BranchInst>(&i)) { if (cast<BranchInst>(i).isConditional()) x.ops.push_back(opd(cast<BranchInst>(i).getCondition())); }
        else if (auto* sw = dyn_cast<SwitchInst>(&i)) { x.ops.push_back(opd(sw->getCondition())); x.bits = tyBits(sw->getCondition()->getType()); for (auto& c : sw->cases()) x.scale.push_back((int64_t)c.getCaseValue()->getZExtValue()); }
        else for (auto& o : i.operands()) { if (isa<BasicBlock>(o)) continue; x.ops.push_back(opd(o)); }
        if (auto* c = dyn_cast<CmpInst>(&i)) x.cst = c->getPredicate();
        if (i.isTerminator()) {
          if (auto* sw = dyn_cast<SwitchInst>(&i)) { db.succ.push_back(bi[sw->getDefaultDest()]); for (auto& c : sw->cases()) db.succ.push_back(bi[c.getCaseSuccessor()]); }
          else for (unsigned k = 0; k < i.getNumSuccessors(); ++k) db.succ.push_back(bi[i.getSuccessor(k)]);
        }
        db.insts.push_back(std::move(x));
      }
    }
    computeIpdom(d);
    DominatorTree DT(*const_cast<Function*>(F)); LoopInfo LI(DT);
    for (auto& b : *F) for (Loop* l = LI.getLoopFor(&b); l; l = l->getParentLoop()) { int h = bi[l->getHeader()]; d->blocks[bi[&b]].loops.push_back(h); if (!d->headerIdx.count(h)) { d->headerIdx[h] = d->inLoop.size(); d->inLoop.emplace_back(nb, false); for (auto* lb : l->blocks()) d->inLoop.back()[bi[lb]] = true; } }
    if (LI.begin() != LI.end()) computeCarried(d, F, DT, reg, bi);
    return d;
  }
  // A value defined in a loop and used behind it has no merge node at the join of the loop's
  // exits: the join takes it over like one (per-path values of the registers in `carried').
  void computeCarried(DFunc* d, const Function* F, DominatorTree& DT, std::unordered_map<const Value*, int>& reg, std::unordered_map<const BasicBlock*, int>& bi) {
    int n = d->blocks.size(); std::vector<const BasicBlock*> bb(n); for (auto& b : *F) bb[bi[&b]] = &b;
    std::vector<bool> target(n, false); for (auto& b : d->blocks) { if (b.succ.size() > 1 && b.ipdom >= 0) target[b.ipdom] = true; for (int h : b.loops) target[h] = true; }
    auto reach = [&](int from, int avoid) { std::vector<bool> r(n, false); std::vector<int> w{from}; while (!w.empty()) { int b = w.back(); w.pop_back(); for (int s : d->blocks[b].succ) if (s != avoid && !r[s]) { r[s] = true; w.push_back(s); } } return r; };
    for (int t = 0; t < n; ++t) {
      if (!target[t]) continue;
      std::vector<bool> after = reach(t, -1); after[t] = true;
      for (int q = 0; q < n; ++q) {
        if (q == t || d->blocks[q].loops.empty() || !DT.dominates(bb[q], bb[t]) || !reach(q, t)[q]) continue;
        for (auto& i : *bb[q]) {
          auto ri = reg.find(&i); if (ri == reg.end() || isa<AllocaInst>(i)) continue;
          for (auto& u : i.uses()) {
            auto* ui = dyn_cast<Instruction>(u.getUser()); if (!ui) continue;
            int ub = bi[isa<PHINode>(ui) ? cast<PHINode>(ui)->getIncomingBlock(u) : ui->getParent()];
            if (after[ub]) { d->blocks[t].carried.push_back(ri->second); break; }
          }
        }
      }
    }
  }
  // post-dominators over blocks from which a return is reachable
  void computeIpdom(DFunc* d) {
    int n = d->blocks.size(); std::vector<std::vector<int>> pred(n); std::vector<bool> live(n, false); std::vector<int> order;
    for (int i = 0; i < n; ++i) for (int s : d->blocks[i].succ) pred[s].push_back(i);
    std::vector<int> work; std::vector<int> rets;
    for (int i = 0; i < n; ++i) if (d->blocks[i].insts.size() && d->blocks[i].insts.back().op == Instruction::Ret) { live[i] = true; work.push_back(i); rets.push_back(i); }
    while (!work.empty()) { int b = work.back(); work.pop_back(); for (int p : pred[b]) if (!live[p]) { live[p] = true; work.push_back(p); } }
    // reverse graph with virtual exit n; iterative dominators
    std::vector<int> rpo; std::vector<int> state(n + 1, 0);
    auto rsucc = [&](int b) { std::vector<int> r; if (b == n) r = rets; else for (int p : pred[b]) if (live[p]) r.push_back(p); return r; };
    std::vector<std::pair<int, std::pair<std::vector<int>, size_t>>> st; st.push_back({n, {rsucc(n), 0}}); state[n] = 1;
    while (!st.empty()) { auto& t = st.back(); if (t.second.second < t.second.first.size()) { int c = t.second.first[t.second.second++]; if (!state[c]) { state[c] = 1; st.push_back({c, {rsucc(c), 0}}); } } else { rpo.push_back(t.first); st.pop_back(); } }
    std::reverse(rpo.begin(), rpo.end()); std::vector<int> num(n + 1, -1); for (size_t i = 0; i < rpo.size(); ++i) num[rpo[i]] = i;
    std::vector<int> idom(n + 1, -1); idom[n] = n; bool ch = true;
    auto inter = [&](int a, int b) { while (a != b) { while (num[a] > num[b]) a = idom[a]; while (num[b] > num[a]) b = idom[b]; } return a; };
    while (ch) { ch = false; for (int b : rpo) if (b != n) { int nd = -1; bool isRet = std::find(rets.begin(), rets.end(), b) != rets.end(); if (isRet) nd = n; for (int s : d->blocks[b].succ) if (live[s] && idom[s] >= 0) nd = nd < 0 ? s : inter(s, nd); if (nd != idom[b]) { idom[b] = nd; ch = true; } } }
    for (int i = 0; i < n; ++i) d->blocks[i].ipdom = (idom[i] >= 0 && idom[i] < n) ? idom[i] : RET;
  }

  // ---- memory -------------------------------------------------------------------
  Object* deref(const Val& p, int64_t size, bool write, const char* what) {
    if (p.k == K::Undef) throw MemError("uninitialised-pointer", std::string(what) + " through an uninitialised pointer");
    if (p.k == K::Int) throw MemError("null-dereference", std::string(what) + " through a null/integer pointer");
    if (p.k != K::Ptr) throw Undecided(std::string(what) + " through an unknown pointer");
    Object* o = p.p.obj < objs.size() ? objs[p.p.obj] : nullptr;
    if (!o || !o->alive) throw MemError("use-after-lifetime", std::string(what) + " of an object whose lifetime has ended" + (o && o->loc ? " (allocated at " + locNames[o->loc] + ")" : ""));
    if (o->kind == OK::Fn) throw MemError("bad-access", std::string(what) + " of code");
    if (o->kind != OK::Ext && (p.p.off < 0 || p.p.off + size > o->size)) throw MemError("out-of-bounds", std::string(what) + " of " + std::to_string(size) + " bytes at offset " + std::to_string(p.p.off) + " of an object of " + std::to_string(o->size) + " bytes" + (o->loc ? " (allocated at " + locNames[o->loc] + ")" : "") + (o->site && isa<GlobalValue>(o->site) ? " (" + demangle(o->site->getName().str()) + ")" : ""));
    if (write && o->constant && !initPhase) throw MemError("write-to-constant", "write to a constant object");
    if (res) ++res->accesses;
    return o;
  }
  void logOld(uint32_t id, int64_t off, Object* o) { if (journals.empty()) return; Key k{id, off}; auto& j = journals.back().old; if (j.count(k)) return; auto it = o->c.find(off); if (it == o->c.end()) j[k] = std::nullopt; else j[k] = it->second; }
  void putCell(uint32_t id, int64_t off, const Cell& c) { Object* o = objs[id]; logOld(id, off, o); o->c[off] = c; }
  void delCell(uint32_t id, int64_t off) { Object* o = objs[id]; logOld(id, off, o); o->c.erase(off); }
  // byte value: -1 undef, -2 symbolic
  int getByte(Object* o, int64_t off) {
    auto it = o->c.upper_bound(off); if (it != o->c.begin()) { --it; if (it->first + it->second.size > off) { uint64_t b; int64_t k = off - it->first; const Val& v = it->second.v; if (v.k == K::Undef) return -1; if (v.k == K::Int) { if ((v.um >> (8 * k)) & 255) return -1; b = v.i; } else if (v.k == K::Fp) { if (it->second.size == 4) { float f = v.d; uint32_t u; memcpy(&u, &f, 4); b = u; } else if (it->second.size == 8) { double f = v.d; memcpy(&b, &f, 8); } else { unsigned char raw[16] = {0}; long double f = v.d; memcpy(raw, &f, 10); return k < 16 ? raw[k] : 0; } } else return -2; return (b >> (8 * k)) & 255; } }
    return o->zero ? 0 : -1;
  }
  void splitRange(uint32_t id, int64_t off, int64_t n) { // remove [off,off+n), keep remainders of partially covered cells
    Object* o = objs[id]; auto it = o->c.lower_bound(off);
    std::vector<int64_t> del; std::vector<std::pair<int64_t,int>> keep;
    if (it != o->c.begin()) { auto p = std::prev(it); if (p->first + p->second.size > off) { bool sym = p->second.v.k != K::Int && p->second.v.k != K::Fp && p->second.v.k != K::Undef; if (sym) throw Undecided("partial overwrite of a symbolic cell"); for (int64_t b = p->first; b < p->first + p->second.size; ++b) if (b < off || b >= off + n) { int v = getByte(o, b); if (v >= 0) keep.push_back({b, v}); } del.push_back(p->first); } }
    for (; it != o->c.end() && it->first < off + n; ++it) { if (it->first + it->second.size > off + n) { bool sym = it->second.v.k != K::Int && it->second.v.k != K::Fp && it->second.v.k != K::Undef; if (sym) throw Undecided("partial overwrite of a symbolic cell"); for (int64_t b = off + n; b < it->first + it->second.size; ++b) { int v = getByte(o, b); if (v >= 0) keep.push_back({b, v}); } } del.push_back(it->first); }
    for (auto d : del) delCell(id, d);
    for (auto& k : keep) { Cell c; c.v = vInt(k.second, 8); c.size = 1; putCell(id, k.first, c); }
  }
  void checkEffectWrite(const Val& p, Object* o) {
    if (!effects || muted || atomicAccess) return; if (o->kind == OK::Stack || o->tls || (p.p.obj >= effObjStart && !o->birthScope && o->kind == OK::Heap) || o->kind == OK::Ext) return;
    if (o->birthScope && inScope(o->birthScope)) return;
    ++effWrites;
    if (curScope == 0) violation("unsynchronised-write", "write to shared " + objName(o) + " outside any one-time-initialisation or lock scope", curLoc());
  }
  bool inScope(uint32_t s) { for (uint32_t c = curScope; c; c = scopes[c].parent) if (c == s) return true; return false; }
  std::string objName(Object* o) { if (o->site && isa<GlobalValue>(o->site)) return "global '" + demangle(o->site->getName().str()) + "'"; return std::string("heap object") + (o->loc ? " allocated at " + locNames[o->loc] : ""); }
  void checkEffectRead(const Val& p, Object* o, const Cell& c) {
    if (!effects || !effWarm || muted || !c.scope || atomicAccess) return; if (o->kind == OK::Stack || o->tls) return;
    ++effReads;
    for (uint32_t s = c.scope; s; s = scopes[s].parent) if (passed.count(s) || inScope(s)) return;
    violation("unsynchronised-read", "read of shared " + objName(o) + " written inside one-time initialisation '" + scopes[c.scope].name + "' that this thread has not passed", curLoc());
  }
  void store1(const Val& p, const Val& v, int64_t size) {
    Object* o = deref(p, size, true, "write"); checkEffectWrite(p, o);
    auto it = o->c.find(p.p.off);
    if (it == o->c.end() || it->second.size != (uint32_t)size) splitRange(p.p.obj, p.p.off, size);
    else { auto nx = std::next(it); (void)nx; }
    Cell c; c.v = v; c.size = size; c.scope = curScope; putCell(p.p.obj, p.p.off, c);
  }
  static Val convertTo(const Val& v, Type* t) {
    if (v.k == K::Int && t->isFloatingPointTy()) { if (v.um) return Val();
      if (t->isDoubleTy()) { double d; memcpy(&d, &v.i, 8); return vFp(d, 64); }
      if (t->isFloatTy()) { uint32_t u = v.i; float f; memcpy(&f, &u, 4); return vFp(f, 32); }
      if (v.i == 0) return vFp(0, tyBits(t));
      throw Undecided("integer bits read as long double");
    }
    if (v.k == K::Fp && !t->isFloatingPointTy()) { unsigned b = tyBits(t); if (b == 64) { double d = v.d; uint64_t u; memcpy(&u, &d, 8); return vInt(u, 64); } if (b == 32) { float d = v.d; uint32_t u; memcpy(&u, &d, 4); return vInt(u, 32); } throw Undecided("fp bits read as integer"); }
    if (v.k == K::Int && t->isIntegerTy() ) { unsigned b = std::min(64u, t->getIntegerBitWidth()); Val r = v; r.bits = b; r.i = maskBits(r.i, b); r.um = maskBits(r.um, b); return r; }
    if (v.k == K::Int && t->isPointerTy()) { Val r = v; r.bits = 64; return r; }
    return v;
  }
  Val load1(const Val& p, Type* t, int64_t size) {
    Object* o = deref(p, size, false, "read");
    auto it = o->c.find(p.p.off);
    if (it != o->c.end() && it->second.size == (uint32_t)size) {
      checkEffectRead(p, o, it->second);
      if (it->second.v.k == K::Dec) return apply1(it->second.v, [&](const Val& x) { return convertTo(x, t); });
      return convertTo(it->second.v, t);
    }
    if (o->kind == OK::Ext) return vTop();
    if (size > 8) {
      if (t->isX86_FP80Ty()) { unsigned char raw[16] = {0}; for (int k = 0; k < 10; ++k) { int b = getByte(o, p.p.off + k); if (b == -1) return Val(); if (b == -2) throw Undecided("mixed-size read of symbolic value"); raw[k] = b; } long double d = 0; memcpy(&d, raw, 10); return vFp(d, 80); }
      throw Undecided("wide read"); }
    uint64_t v = 0, um = 0; for (int64_t k = 0; k < size; ++k) { int b = getByte(o, p.p.off + k); if (b == -1) { um |= 255ull << (8 * k); continue; } if (b == -2) throw Undecided("mixed-size read of symbolic value"); v |= (uint64_t)b << (8 * k); }
    Val r = um ? vIntU(v, um, size * 8) : vInt(v, size * 8); if (r.k == K::Undef) return r; if (t->isPointerTy()) return r; return convertTo(r, t);
  }
  Val loadT(const Val& p, Type* t) {
    if (p.k == K::Dec) {
      std::vector<std::pair<Val, MemError>> bad;   // targets that cannot be read: an error only if the path leads there
      Val r = apply1(p, [&](const Val& q) -> Val { if (q.k == K::Undef) return Val(); try { return loadT(q, t); } catch (MemError& e) { bad.push_back({q, e}); return Val(); } });
      for (auto& b : bad) if (feasible(bAnd(pc, apply1(p, [&](const Val& q) { return vBool(q == b.first); })))) throw b.second;
      return r;
    }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadT(ptrAdd(p, sl->getElementOffset(i)), st->getElementType(i))); return vAgg(std::move(v)); }
    if (auto* at = dyn_cast<ArrayType>(t)) { int64_t s = DL.getTypeAllocSize(at->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < at->getNumElements(); ++i) v.push_back(loadT(ptrAdd(p, s * i), at->getElementType())); return vAgg(std::move(v)); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { int64_t s = DL.getTypeAllocSize(vt->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(loadT(ptrAdd(p, s * i), vt->getElementType())); return vAgg(std::move(v)); }
    return load1(p, t, DL.getTypeStoreSize(t));
  }
  void storeT(const Val& p, const Val& v, Type* t) {
    if (p.k == K::Dec) { // conditional store to each possible target
      std::vector<std::pair<Val, Val>> tg; std::function<void(const Val&, const Val&)> rec = [&](const Val& q, const Val& c) { if (q.k == K::Dec) { Val a = vDec(q.dec->a, vBool(true), vBool(false)); rec(q.dec->hi, bAnd(c, a)); rec(q.dec->lo, bAnd(c, bNot(a))); } else { for (auto& x : tg) if (x.first == q) { x.second = bOr(x.second, c); return; } tg.push_back({q, c}); } };
      rec(p, vBool(true));
      for (auto& x : tg) { if (x.first.k != K::Ptr || !feasible(bAnd(pc, x.second))) continue; storeT(x.first, ite(x.second, v, loadT(x.first, t)), t); }
      return;
    }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeT(ptrAdd(p, sl->getElementOffset(i)), aggEl(v, i), st->getElementType(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { int64_t s = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) storeT(ptrAdd(p, s * i), aggEl(v, i), at->getElementType()); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { int64_t s = DL.getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) storeT(ptrAdd(p, s * i), aggEl(v, i), vt->getElementType()); return; }
    store1(p, v, DL.getTypeStoreSize(t));
  }
  static Val aggEl(const Val& a, unsigned i) {
    if (a.k == K::Agg) return a.agg->v[i];
    if (a.k == K::Dec) return apply1(a, [&](const Val& x) { return x.k == K::Agg ? x.agg->v[i] : x; });
    return a;
  }
  void memCopy(const Val& d, const Val& s, int64_t n) {
    if (n == 0) return;
    Object* so = deref(s, n, false, "read"); deref(d, n, true, "write"); checkEffectWrite(d, objs[d.p.obj]);
    if (so->kind == OK::Ext) return;
    std::vector<std::pair<int64_t, Cell>> cells; int64_t lo = s.p.off, hi = s.p.off + n;
    auto it = so->c.upper_bound(lo); if (it != so->c.begin()) --it;
    auto bytes = [&](int64_t a, int64_t b) { for (int64_t k = a; k < b; ++k) { int v = getByte(so, k); if (v == -2) throw Undecided("partial copy of a symbolic cell"); if (v >= 0) { Cell c; c.v = vInt(v, 8); c.size = 1; cells.push_back({k, c}); } } };
    int64_t pos = lo;
    auto gap = [&](int64_t a, int64_t b) { if (!so->zero) return; while (a < b) { int s2 = b - a >= 8 && a % 8 == 0 ? 8 : b - a >= 4 && a % 4 == 0 ? 4 : 1; Cell c; c.v = vInt(0, 8 * s2); c.size = s2; cells.push_back({a, c}); a += s2; } };
    for (; it != so->c.end() && it->first < hi; ++it) {
      int64_t a = it->first, b = a + it->second.size; if (b <= lo) continue;
      if (a > pos) gap(pos, a);
      if (a >= lo && b <= hi) { checkEffectRead(s, so, it->second); cells.push_back({a, it->second}); } else bytes(std::max(a, lo), std::min(b, hi));
      pos = std::max(pos, b);
    }
    if (pos < hi) gap(pos, hi);
    splitRange(d.p.obj, d.p.off, n);
    for (auto& c : cells) { c.second.scope = curScope; putCell(d.p.obj, d.p.off + c.first - lo, c.second); }
  }
  void memSet(const Val& d, int byte, int64_t n) {
    if (n == 0) return; Object* o = deref(d, n, true, "write"); checkEffectWrite(d, o);
    splitRange(d.p.obj, d.p.off, n);
    if (byte == 0 && d.p.off == 0 && n == o->size && o->c.empty() && journals.empty()) { o->zero = true; return; }
    int64_t off = d.p.off; uint64_t pat = 0x0101010101010101ull * (uint64_t)(byte & 255);
    while (n > 0) { int s = n >= 8 && off % 8 == 0 ? 8 : n >= 4 && off % 4 == 0 ? 4 : 1; Cell c; c.v = vInt(pat, 8 * s); c.size = s; c.scope = curScope; putCell(d.p.obj, off, c); off += s; n -= s; }
  }
  void killObj(uint32_t id, bool stackObj) {
    Object* o = objs[id]; if (!o) return;
    if (journals.empty() || id >= journals.front().objStart) { if (journals.empty() && stackObj) { delete o; objs[id] = nullptr; } else { o->alive = false; if (!journals.empty()) journals.back().killed.push_back(id); } }
    else { o->alive = false; journals.back().killed.push_back(id); }
  }
  std::string readStr(const Val& p) { if (p.k != K::Ptr) return "?"; std::string s; Object* o = objs[p.p.obj]; for (int64_t k = p.p.off; k < o->size; ++k) { int b = getByte(o, k); if (b <= 0) break; s += (char)b; if (s.size() > 4000) break; } return s; }

  // ---- arithmetic ------------------------------------------------------------------
  Val arith(unsigned op, const Val& a, const Val& b, unsigned bits, bool fp) {
    if (a.k == K::Dec || b.k == K::Dec) {
      std::vector<std::pair<Val, MemError>> bad;   // divisors that are an error only if the path leads to them
      Val r = apply2(a, b, [&](const Val& x, const Val& y) -> Val { try { return arith(op, x, y, bits, fp); } catch (MemError& e) { bad.push_back({y, e}); return Val(); } });
      for (auto& d : bad) if (feasible(bAnd(pc, apply1(b, [&](const Val& y) { return vBool(y == d.first); })))) throw d.second;
      return r;
    }
    if (a.k == K::Agg || b.k == K::Agg) { if (a.k != K::Agg || b.k != K::Agg) return vTop(); std::vector<Val> v; for (size_t i = 0; i < a.agg->v.size(); ++i) v.push_back(arith(op, a.agg->v[i], b.agg->v[i], a.agg->v[i].bits ? a.agg->v[i].bits : bits, fp)); return vAgg(std::move(v)); }
    if ((op == Instruction::And || op == Instruction::Or) && bits && bits <= 64) { // undefined bits of a bit-field container
      if (a.k == K::Undef && b.k == K::Int && b.um == 0) { Val u = vInt(0, bits); u.um = maskBits(~0ull, bits); u.loc = a.loc; return arith(op, u, b, bits, fp); }
      if (b.k == K::Undef && a.k == K::Int && !a.um) { Val u = vInt(0, bits); u.um = maskBits(~0ull, bits); u.loc = b.loc; return arith(op, a, u, bits, fp); }
    }
    if (a.k == K::Undef || b.k == K::Undef) return Val();
    if (a.k == K::Top || b.k == K::Top) return vTop();
    if (fp) {
      if (a.k == K::Fp && b.k == K::Fp) {
        long double r; double x = a.d, y = b.d; float fx = a.d, fy = b.d;
        switch (op) {
          case Instruction::FAdd: r = bits == 80 ? a.d + b.d : bits == 64 ? x + y : fx + fy; break;
          case Instruction::FSub: r = bits == 80 ? a.d - b.d : bits == 64 ? x - y : fx - fy; break;
          case Instruction::FMul: r = bits == 80 ? a.d * b.d : bits == 64 ? x * y : fx * fy; break;
          case Instruction::FDiv: r = bits == 80 ? a.d / b.d : bits == 64 ? x / y : fx / fy; break;
          case Instruction::FRem: r = fmodl(a.d, b.d); break;
          default: return vTop();
        }
        if (!exactFp || op == Instruction::FRem || !std::isfinite((double)r) || !std::isfinite(x) || !std::isfinite(y)) return vFp(r, bits);
        if (a.d == 0 || b.d == 0) return vFp(r, bits);
        Q qx = toRF(a)->num->constVal(), qy = toRF(b)->num->constVal(), qr = op == Instruction::FAdd ? Q(qx + qy) : op == Instruction::FSub ? Q(qx - qy) : op == Instruction::FMul ? Q(qx * qy) : Q(qx / qy);
        return vSym(rfConst(qr), false, bits);
      }
      if ((a.k == K::Fp && !std::isfinite((double)a.d)) || (b.k == K::Fp && !std::isfinite((double)b.d))) return vTop();
      R x = toRF(a), y = toRF(b);
      switch (op) {
        case Instruction::FAdd: return vSym(rfAdd(x, y), false, bits);
        case Instruction::FSub: return vSym(rfSub(x, y), false, bits);
        case Instruction::FMul: return vSym(rfMul(x, y), false, bits);
        case Instruction::FDiv: if (y->num->t.empty()) return vTop(); return vSym(rfMul(x, rfInv(y)), false, bits);
        default: return vTop();
      }
    }
    // pointers in integer arithmetic
    if (a.k == K::Ptr || b.k == K::Ptr) {
      if (op == Instruction::Sub && a.k == K::Ptr && b.k == K::Ptr) { if (a.p.obj == b.p.obj) return vInt(a.p.off - b.p.off, bits); return vTop(); }
      if (op == Instruction::Add && a.k == K::Ptr && b.k == K::Int) return ptrAdd(a, (int64_t)b.i);
      if (op == Instruction::Add && b.k == K::Ptr && a.k == K::Int) return ptrAdd(b, (int64_t)a.i);
      if (op == Instruction::Sub && a.k == K::Ptr && b.k == K::Int) return ptrAdd(a, -(int64_t)b.i);
      if (op == Instruction::And && a.k == K::Ptr && b.k == K::Int) { if (b.i < 16) return vInt((uint64_t)a.p.off & b.i, bits); return a; }
      return vTop();
    }
    if ((a.k == K::Int && a.um) || (b.k == K::Int && b.um)) {
      if (a.k != K::Int || b.k != K::Int) return Val();
      switch (op) {
        case Instruction::And: { uint64_t def0 = (~a.i & ~a.um) | (~b.i & ~b.um); return vIntU(a.i & b.i, (a.um | b.um) & ~def0, bits); }
        case Instruction::Or: { uint64_t def1 = a.i | b.i; return vIntU(a.i | b.i, (a.um | b.um) & ~def1, bits); }
        case Instruction::Xor: return vIntU(a.i ^ b.i, a.um | b.um, bits);
        case Instruction::Shl: if (b.um || b.i >= bits) return Val(); return vIntU(a.i << b.i, a.um << b.i, bits);
        case Instruction::LShr: if (b.um || b.i >= bits) return Val(); return vIntU(a.i >> b.i, a.um >> b.i, bits);
        default: return Val();
      }
    }
    if (a.k == K::Int && b.k == K::Int) {
      uint64_t x = a.i, y = b.i; int64_t sx = sextBits(x, bits), sy = sextBits(y, bits);
      switch (op) {
        case Instruction::Add: return vInt(x + y, bits); case Instruction::Sub: return vInt(x - y, bits); case Instruction::Mul: return vInt(x * y, bits);
        case Instruction::UDiv: if (!y) throw MemError("division-by-zero", "integer division by zero"); return vInt(x / y, bits);
        case Instruction::URem: if (!y) throw MemError("division-by-zero", "integer remainder by zero"); return vInt(x % y, bits);
        case Instruction::SDiv: if (!sy) throw MemError("division-by-zero", "integer division by zero"); return vInt((uint64_t)(sx / sy), bits);
        case Instruction::SRem: if (!sy) throw MemError("division-by-zero", "integer remainder by zero"); return vInt((uint64_t)(sx % sy), bits);
        case Instruction::Shl: return y >= bits ? Val() : vInt(x << y, bits); case Instruction::LShr: return y >= bits ? Val() : vInt(x >> y, bits);
        case Instruction::AShr: return y >= bits ? Val() : vInt((uint64_t)(sx >> y), bits);
        case Instruction::And: return vInt(x & y, bits); case Instruction::Or: return vInt(x | y, bits); case Instruction::Xor: return vInt(x ^ y, bits);
      }
      return vTop();
    }
    R x = toRF(a), y = toRF(b);
    switch (op) {
      case Instruction::Add: return vSym(rfAdd(x, y), true, bits);
      case Instruction::Sub: return vSym(rfSub(x, y), true, bits);
      case Instruction::Mul: return vSym(rfMul(x, y), true, bits);
      case Instruction::Shl: if (b.k == K::Int) return vSym(rfMul(x, rfConst(Q(mpz_class(1) << (unsigned)b.i))), true, bits); return symBit(op, a, b, bits);
      case Instruction::UDiv: case Instruction::SDiv: return symDiv(x, y, bits);
      case Instruction::LShr: case Instruction::AShr: if (b.k == K::Int) return symDiv(x, rfConst(Q(mpz_class(1) << (unsigned)b.i)), bits); return symBit(op, a, b, bits);
      case Instruction::URem: case Instruction::SRem: { Val q = symDiv(x, y, bits); if (q.k == K::Top) return q; return apply1(q, [&](const Val& z) { return vSym(rfSub(x, rfMul(y, toRF(z))), true, bits); }); }
      case Instruction::And: if (b.k == K::Int && b.i && ((b.i + 1) & b.i) == 0) { Val q = symDiv(x, rfConst(Q(mpz_class((unsigned long)b.i + 1))), bits); return apply1(q, [&](const Val& z) { return vSym(rfSub(x, rfMul(rfConst(Q(mpz_class((unsigned long)b.i + 1))), toRF(z))), true, bits); }); }
        return symBit(op, a, b, bits);
      default: return symBit(op, a, b, bits);
    }
  }
  Val symBit(unsigned op, const Val& a, const Val& b, unsigned bits) {
    std::string k = "bit" + std::to_string(op) + "(" + valStr(a) + "," + valStr(b) + ")"; return opaque(k, true, bits);
  }
  Val opaque(const std::string& k, bool isInt, unsigned bits, bool nonneg = false) {
    auto it = opaqueTab.find(k); uint32_t v; if (it != opaqueTab.end()) v = it->second; else { v = newVar(k.substr(0, 60), isInt); vars[v].nonneg = nonneg; opaqueTab[k] = v; }
    return vSym(rfVar(v), isInt, bits);
  }
  // floor division of integers, operands assumed non-negative
  Val symDiv(R x, R y, unsigned bits) {
    if (!x->den.empty() || !y->den.empty()) throw Undecided("integer division of rational function");
    P q, r;
    if (y->isConst() && y->num->constVal() == 1) return vSym(x, true, bits);
    polyDivRem(x->num, y->num, q, r);
    if (r->t.empty() && polyIsInt(q)) return vSym(rfMake(q, {}), true, bits);
    if (polyIsInt(q) && !q->t.empty()) {
      R rr = rfMake(r, {});
      Val ok = bAnd(relZero(rr, Rel::GE), relZero(rfSub(rr, y), Rel::LT));
      if (!feasible(bAnd(pc, bNot(ok)))) return vSym(rfMake(q, {}), true, bits);
    }
    { Val ok = bAnd(relZero(x, Rel::GE), relZero(rfSub(x, y), Rel::LT)); if (!feasible(bAnd(pc, bNot(ok)))) return vInt(0, bits); }
    if (y->isConst() && x->num->t.size() == 2) { // parity splitting of n(n+1)/2 style expressions is exact
      Q d = y->num->constVal(); P xn = x->num;
      // product of consecutive integers divisible by d!: try evaluation on residues
      if (divisibleOnResidues(xn, d)) return vSym(rfMul(x, rfConst(1 / d)), true, bits);
    } else if (y->isConst() && divisibleOnResidues(x->num, y->num->constVal())) return vSym(rfMul(x, rfConst(1 / y->num->constVal())), true, bits);
    std::string k = "floor((" + rfStr(x) + ")/(" + rfStr(y) + "))#" + std::to_string(x->id) + "," + std::to_string(y->id);
    return opaque(k, true, bits, true);
  }
  // polynomial with integer coefficients always divisible by d? decided on all residues mod d
  bool divisibleOnResidues(P p, const Q& d) {
    if (d.get_den() != 1 || d <= 0 || d > 64) return false; long m = d.get_num().get_si();
    for (auto& x : p->t) if (x.c.get_den() != 1) return false;
    std::set<uint32_t> vs; for (auto& x : p->t) for (auto e : x.m) { if (!vars[mvar(e)].isInt) return false; vs.insert(mvar(e)); }
    std::vector<uint32_t> v(vs.begin(), vs.end()); double total = 1; for (size_t i = 0; i < v.size(); ++i) total *= m; if (total > 200000) return false;
    std::vector<long> val(v.size(), 0);
    while (true) {
      long s = 0; for (auto& x : p->t) { mpz_class cz = x.c.get_num() % m; long t = cz.get_si(); for (auto e : x.m) { long b = val[std::lower_bound(v.begin(), v.end(), mvar(e)) - v.begin()]; for (uint32_t k = 0; k < mexp(e); ++k) t = t * b % m; } s = (s + t) % m; }
      if (s % m != 0) return false;
      size_t i = 0; while (i < v.size() && ++val[i] == m) val[i++] = 0; if (i == v.size()) break;
    }
    return true;
  }
  Val cmpInt(unsigned pred, const Val& a, const Val& b, unsigned bits) {
    if (a.k == K::Dec || b.k == K::Dec) return apply2(a, b, [&](const Val& x, const Val& y) { return cmpInt(pred, x, y, bits); });
    if (a.k == K::Undef || b.k == K::Undef) return Val();
    if (a.k == K::Top || b.k == K::Top) return vTop();
    if (a.k == K::Ptr || b.k == K::Ptr) {
      bool same = a.k == K::Ptr && b.k == K::Ptr && a.p.obj == b.p.obj;
      if (same) return cmpInt(pred, vInt(a.p.off, 64), vInt(b.p.off, 64), 64).k == K::Int ? cmpSigned(pred, a.p.off, b.p.off) : vTop();
      if (pred == CmpInst::ICMP_EQ) return vBool(false);
      if (pred == CmpInst::ICMP_NE) return vBool(true);
      // ordering between distinct objects / null: use object ids
      auto key = [](const Val& v) { return v.k == K::Ptr ? (int64_t)v.p.obj : (int64_t)0; };
      return cmpSigned(pred, key(a), key(b));
    }
    if ((a.k == K::Int && a.um) || (b.k == K::Int && b.um)) return Val();
    if (a.k == K::Int && b.k == K::Int) {
      uint64_t x = maskBits(a.i, bits), y = maskBits(b.i, bits); int64_t sx = sextBits(x, bits), sy = sextBits(y, bits);
      switch (pred) { case CmpInst::ICMP_EQ: return vBool(x == y); case CmpInst::ICMP_NE: return vBool(x != y); case CmpInst::ICMP_UGT: return vBool(x > y); case CmpInst::ICMP_UGE: return vBool(x >= y); case CmpInst::ICMP_ULT: return vBool(x < y); case CmpInst::ICMP_ULE: return vBool(x <= y); case CmpInst::ICMP_SGT: return vBool(sx > sy); case CmpInst::ICMP_SGE: return vBool(sx >= sy); case CmpInst::ICMP_SLT: return vBool(sx < sy); case CmpInst::ICMP_SLE: return vBool(sx <= sy); }
      return vTop();
    }
    R x = toRF(a), y = toRF(b); R d = rfSub(x, y);
    switch (pred) {
      case CmpInst::ICMP_EQ: return relZero(d, Rel::EQ); case CmpInst::ICMP_NE: return relZero(d, Rel::NE);
      case CmpInst::ICMP_SGT: return relZero(d, Rel::GT); case CmpInst::ICMP_SGE: return relZero(d, Rel::GE);
      case CmpInst::ICMP_SLT: return relZero(d, Rel::LT); case CmpInst::ICMP_SLE: return relZero(d, Rel::LE);
      default: {
        // unsigned: negative mathematical values wrap to large ones
        bool xn = mayBeNegative(a, x), yn = mayBeNegative(b, y);
        Rel r = pred == CmpInst::ICMP_UGT ? Rel::GT : pred == CmpInst::ICMP_UGE ? Rel::GE : pred == CmpInst::ICMP_ULT ? Rel::LT : Rel::LE;
        Val c = relZero(d, r); if (!xn && !yn) return c;
        Val nx = xn ? relZero(x, Rel::LT) : vBool(false), ny = yn ? relZero(y, Rel::LT) : vBool(false);
        bool less = pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE;
        // x negative & y not: x is huge
        Val mixedX = vBool(!less), mixedY = vBool(less);
        return ite(nx, ite(ny, c, mixedX), ite(ny, mixedY, c));
      }
    }
  }
  bool mayBeNegative(const Val& v, R r) { if (v.k == K::Int) return sextBits(v.i, v.bits) < 0; return feasible(bAnd(pc, relZero(r, Rel::LT))); }
  Val cmpSigned(unsigned pred, int64_t x, int64_t y) {
    switch (pred) { case CmpInst::ICMP_EQ: return vBool(x == y); case CmpInst::ICMP_NE: return vBool(x != y); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return vBool(x > y); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return vBool(x >= y); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return vBool(x < y); default: return vBool(x <= y); }
  }
  Val cmpFp(unsigned pred, const Val& a, const Val& b) {
    if (a.k == K::Dec || b.k == K::Dec) return apply2(a, b, [&](const Val& x, const Val& y) { return cmpFp(pred, x, y); });
    if (pred == CmpInst::FCMP_TRUE) return vBool(true); if (pred == CmpInst::FCMP_FALSE) return vBool(false);
    if (a.k == K::Undef || b.k == K::Undef) return Val();
    if (a.k == K::Top || b.k == K::Top) return vTop();
    if (a.k == K::Fp && b.k == K::Fp) {
      long double x = a.d, y = b.d; bool un = x != x || y != y;
      switch (pred) { case CmpInst::FCMP_OEQ: return vBool(!un && x == y); case CmpInst::FCMP_UEQ: return vBool(un || x == y); case CmpInst::FCMP_ONE: return vBool(!un && x != y); case CmpInst::FCMP_UNE: return vBool(un || x != y); case CmpInst::FCMP_OGT: return vBool(!un && x > y); case CmpInst::FCMP_UGT: return vBool(un || x > y); case CmpInst::FCMP_OGE: return vBool(!un && x >= y); case CmpInst::FCMP_UGE: return vBool(un || x >= y); case CmpInst::FCMP_OLT: return vBool(!un && x < y); case CmpInst::FCMP_ULT: return vBool(un || x < y); case CmpInst::FCMP_OLE: return vBool(!un && x <= y); case CmpInst::FCMP_ULE: return vBool(un || x <= y); case CmpInst::FCMP_ORD: return vBool(!un); case CmpInst::FCMP_UNO: return vBool(un); }
      return vTop();
    }
    // symbols are finite
    if (pred == CmpInst::FCMP_ORD) return vBool(true); if (pred == CmpInst::FCMP_UNO) return vBool(false);
    auto inf = [](const Val& v) { return v.k == K::Fp && !std::isfinite((double)v.d); };
    if (inf(a) || inf(b)) { Val x = inf(a) ? a : vFp(0), y = inf(b) ? b : vFp(0); return cmpFp(pred, x, y); }
    R d = rfSub(toRF(a), toRF(b)); Rel r;
    switch (pred) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Rel::EQ; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = Rel::NE; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Rel::GT; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Rel::GE; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Rel::LT; break; default: r = Rel::LE; }
    return relZero(d, r);
  }
  Val fabsV(const Val& a) {
    return apply1(a, [&](const Val& x) -> Val {
      if (x.k == K::Fp) return vFp(fabsl(x.d), x.bits);
      if (x.k != K::Sym) return x;
      Val neg = relZero(x.rf, Rel::LT);
      neg = simplifyUnder(neg, pc);
      return ite(neg, vSym(rfNeg(x.rf), false, x.bits), x); });
  }
  Val sqrtV(const Val& a) {
    return apply1(a, [&](const Val& x) -> Val {
      if (x.k == K::Fp) return vFp(x.bits == 64 ? (long double)std::sqrt((double)x.d) : sqrtl(x.d), x.bits);
      if (x.k != K::Sym) return x;
      if (x.rf->isConst()) { Q q = x.rf->num->constVal(); if (q > 0 && mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) { mpz_class n = sqrt(q.get_num()), m = sqrt(q.get_den()); return vSym(rfConst(Q(n, m)), false, x.bits); } return vFp(std::sqrt(q.get_d()), x.bits); }
      P r; bool sq = polySqrt(x.rf->num, r); std::vector<std::pair<P,int>> d;
      if (sq) for (auto& f : x.rf->den) { if (f.second % 2) { sq = false; break; } d.push_back({f.first, f.second / 2}); }
      if (sq) return fabsV(vSym(rfMake(r, d), false, x.bits));
      return vSym(rfVar(sqrtVar(x.rf)), false, x.bits); });
  }

  // ---- claims ------------------------------------------------------------------------
  std::string labelStr() { std::string s; for (auto& l : labels) { if (!s.empty()) s += ", "; s += l.first + "=" + l.second; } return s; }
  std::vector<DFunc*> recent;           // last functions of /repo called from the harness
  std::string recentStr() { std::string s; for (auto it = recent.rbegin(); it != recent.rend(); ++it) s += (s.empty() ? "result of " : "; ") + (*it)->name; return s; }
  void violation(const std::string& kind, const std::string& msg, uint32_t loc, const std::string& cond = "") {
    if (muted || !res) return;
    Violation v{kind, msg, loc ? locNames[loc] : kind == "claim" && !recent.empty() ? recentStr() : backtrace(), cond, harnessLoc(), labelStr()};
    for (auto& o : res->viol) if (o.kind == kind && o.msg == msg && o.where == v.where) return;
    if (res->viol.size() < 50) res->viol.push_back(v);
  }
  uint32_t anyLocOf(const Val& v) { if (v.loc) return v.loc; if (v.k == K::Dec) { uint32_t l = anyLocOf(v.dec->hi); return l ? l : anyLocOf(v.dec->lo); } return 0; }
  bool hasKind(const Val& v, K k) { if (v.k == k) return true; if (v.k == K::Dec) return hasKind(v.dec->hi, k) || hasKind(v.dec->lo, k); return false; }
  bool hasSym(const Val& v) { return v.k == K::Sym || v.k == K::Dec; }
  void claimBool(const Val& c, const std::string& msg, uint32_t loc, const std::string& detail, bool symbolic) {
    if (muted || !res) return;
    ++res->obligations; ++res->rules[msg]; if (symbolic) ++res->symbolic;
    if (isTrue(c)) { ++res->discharged; return; }
    Val bad = bAnd(pc, bNotU(c)); std::string path;
    if (!findPath(bad, path)) { ++res->discharged; return; }
    // undefined or unknown value?
    Val u = apply1(c, [&](const Val& x) { return vBool(x.k == K::Top); });
    if (!isFalse(u) && feasible(bAnd(pc, u))) throw Undecided("claim '" + msg + "' depends on an unknown value (" + labelStr() + ")");
    violation("claim", msg + (detail.empty() ? "" : ": " + detail), loc, path);
  }
  // negation where undef counts as failing
  Val bNotU(const Val& c) { return apply1(c, [&](const Val& x) { return x.k == K::Int ? vBool(!x.i) : vBool(true); }); }
  static bool hasSqrt(R r) { auto h = [](P p) { for (auto& x : p->t) for (auto e : x.m) if (vars[mvar(e)].sqrtOf) return true; return false; }; if (h(r->num)) return true; for (auto& f : r->den) if (h(f.first)) return true; return false; }
  void claimEq(const Val& a, const Val& b, const std::string& msg, bool fp, double tol_, const Val& aa = Val()) {
    if (muted || !res) return;
    Val c = apply2(a, b, [&](const Val& x, const Val& y) -> Val {
      if (x.k == K::Undef || y.k == K::Undef || (x.k == K::Int && x.um) || (y.k == K::Int && y.um)) return Val();
      if (x.k == K::Top || y.k == K::Top) return vTop();
      if (!fp) { if (x.k == K::Ptr || y.k == K::Ptr) return vBool(x == y); if (x.k == K::Int && y.k == K::Int) return vBool(x.i == y.i); R d = rfSub(toRF(x), toRF(y)); if (d->isConst() && d->num->t.empty()) return vBool(true); return relZero(d, Rel::EQ); }
      if (x.k == K::Fp && y.k == K::Fp) { if (x.d == y.d) return vBool(true); long double s = std::max<long double>(1, std::max(fabsl(x.d), fabsl(y.d))); return vBool(fabsl(x.d - y.d) <= tol_ * s); }
      if ((x.k == K::Fp && !std::isfinite((double)x.d)) || (y.k == K::Fp && !std::isfinite((double)y.d))) return vBool(false);
      R rx = toRF(x), ry = toRF(y); R d = rfSub(rx, ry); if (d->num->t.empty() || rfApproxZero(d, rx, ry, tol_)) return vBool(true);
      if (hasSqrt(d)) { // values of equal sign with equal squares
        R sx = rfMul(rx, rx), sy = rfMul(ry, ry), e = rfSub(sx, sy);
        if (e->num->t.empty() || rfApproxZero(e, sx, sy, tol_)) { Val neg = bOr(relZero(rx, Rel::LT), relZero(ry, Rel::LT)); return bOr(relZero(d, Rel::EQ), bNot(neg)); }
      }
      return relZero(d, Rel::EQ); });
    bool sy = hasSym(a) || hasSym(b);
    std::string det; if (!isTrue(c)) { Val sa = simplifyUnder(a, pc), sb = simplifyUnder(b, pc); det = valStr(sa) + "  vs  " + valStr(sb); }
    uint32_t l = anyLocOf(a); if (!l) l = anyLocOf(b);
    claimBool(c, msg, l, det, sy);
  }

#include "run.inc"
};
