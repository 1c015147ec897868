  // ---- execution ------------------------------------------------------------------
  const Val& get(Frame& f, const Opd& o) { return o.reg >= 0 ? f.regs[o.reg] : o.c; }
  void tag(Val& v, const DInst& d, Frame& f) { uint32_t l = d.loc ? d.loc : f.baseLoc; if (l) v.loc = l; }

  void beginJournal() { journals.emplace_back(); journals.back().objStart = objs.size(); }
  Lane captureLane(std::vector<Val>&& vals, uint32_t objLo) {
    Lane l; l.pc = pc; l.sel = rpc; l.vals = std::move(vals); l.objLo = objLo; l.objHi = objs.size();
    for (auto& k : journals.back().old) { Object* o = objs[k.first.obj]; if (!o) continue; auto it = o->c.find(k.first.off); if (it == o->c.end()) l.diff[k.first] = std::nullopt; else l.diff[k.first] = it->second; }
    for (auto d : journals.back().killed) l.dead.insert(d);
    return l;
  }
  void rollback() {
    Journal j = std::move(journals.back()); journals.pop_back();
    for (auto& k : j.old) { Object* o = objs[k.first.obj]; if (!o) continue; if (k.second) o->c[k.first.off] = *k.second; else o->c.erase(k.first.off); }
    for (auto d : j.killed) if (objs[d]) objs[d]->alive = true;
  }
  void applyDiff(const Lane& l) {
    for (auto& k : l.diff) { if (!objs[k.first.obj]) continue; if (k.second) putCell(k.first.obj, k.first.off, *k.second); else delCell(k.first.obj, k.first.off); }
    for (auto d : l.dead) if (objs[d] && objs[d]->alive) { objs[d]->alive = false; if (!journals.empty()) journals.back().killed.push_back(d); }
  }
  // merge two lanes with the same target; c selects a
  Lane mergeLanes(const Lane& a, const Lane& b) {
    Lane r; r.pc = bOr(a.pc, b.pc); r.sel = bOr(a.sel, b.sel); const Val& c = a.sel;
    if (res) ++res->joins;
    uint32_t l = curLoc();
    for (size_t i = 0; i < a.vals.size(); ++i) { Val v = ite(c, a.vals[i], b.vals[i]); if (v.k == K::Dec && l) v.loc = l; r.vals.push_back(v); }
    auto curCell = [&](const Key& k) -> std::optional<Cell> { Object* o = objs[k.obj]; if (!o) return std::nullopt; auto it = o->c.find(k.off); if (it == o->c.end()) return std::nullopt; return it->second; };
    auto in = [](const Key& k, const Lane& x, const Lane& y) { return k.obj >= x.objLo && k.obj < x.objHi && !(k.obj >= y.objLo && k.obj < y.objHi); };
    std::set<Key> keys; for (auto& k : a.diff) keys.insert(k.first); for (auto& k : b.diff) keys.insert(k.first);
    for (auto& k : keys) {
      auto ia = a.diff.find(k), ib = b.diff.find(k);
      if (in(k, a, b) && ia != a.diff.end()) { r.diff[k] = ia->second; continue; }
      if (in(k, b, a) && ib != b.diff.end()) { r.diff[k] = ib->second; continue; }
      std::optional<Cell> x = ia != a.diff.end() ? ia->second : curCell(k), y = ib != b.diff.end() ? ib->second : curCell(k);
      if (!x && !y) { r.diff[k] = std::nullopt; continue; }
      Object* o = objs[k.obj]; Cell ca, cb; uint32_t sz = x ? x->size : y->size;
      if (x && y && x->size != y->size) throw Undecided("join of differently sized memory cells");
      Val z = o && o->zero ? vInt(0, sz * 8) : Val();
      Val vx = x ? x->v : z, vy = y ? y->v : z;
      if (vx.k == K::Fp && vy.k == K::Int && vy.i == 0) vy = vFp(0, vx.bits);
      if (vy.k == K::Fp && vx.k == K::Int && vx.i == 0) vx = vFp(0, vy.bits);
      Cell m; m.size = sz; m.scope = x ? x->scope : y->scope; m.v = ite(c, vx, vy); if (m.v.k == K::Dec && m.v.dec->size > 40) m.v = simplifyUnder(m.v, r.pc);
      r.diff[k] = m;
    }
    for (auto d : a.dead) if (b.dead.count(d) || (d >= a.objLo && d < a.objHi)) r.dead.insert(d);
    for (auto d : b.dead) if (d >= b.objLo && d < b.objHi) r.dead.insert(d);
    r.objLo = std::min(a.objLo, b.objLo); r.objHi = std::max(a.objHi, b.objHi);
    return r;
  }
  void addLane(Lanes& ls, int t, Lane&& l) { auto it = ls.find(t); if (it == ls.end()) ls.emplace(t, std::move(l)); else it->second = mergeLanes(it->second, l); }

  std::vector<Val> phiVals(Frame& f, int from, int to) {
    std::vector<Val> v; auto& blk = f.f->blocks[to];
    if (blk.nphi) { auto& in = f.f->phiIn[{from, to}]; for (auto& o : in) v.push_back(get(f, o)); }
    for (int r : blk.carried) v.push_back(f.regs[r]);
    return v;
  }
  void setPhis(Frame& f, int b, const std::vector<Val>& v) { auto& blk = f.f->blocks[b]; for (int i = 0; i < blk.nphi && i < (int)v.size(); ++i) f.regs[blk.insts[i].dst] = v[i]; for (size_t k = 0; k < blk.carried.size() && blk.nphi + k < v.size(); ++k) f.regs[blk.carried[k]] = v[blk.nphi + k]; }

  struct Out { int target; std::vector<Val> vals; };
  // Run from block b (phis set) until a stop block, a return or death.
  Out run(Frame& f, int b, const std::vector<int>& stops, Lanes* pend) {
    while (true) {
      DBlock& blk = f.f->blocks[b];
      size_t i = blk.nphi; int next = -100; 
      for (; i < blk.insts.size(); ++i) {
        DInst& d = blk.insts[i]; f.cur = &d;
        if (++steps > stepLimit) throw Undecided("step limit");
        switch (d.op) {
          case Instruction::Ret: { std::vector<Val> v; if (!d.ops.empty()) v.push_back(get(f, d.ops[0])); return {RET, v}; }
          case Instruction::Resume: throwEvent(lastThrow, "exception raised"); return {DEAD, {}};
          case Instruction::Unreachable: throwEvent("unreachable", "execution reaches code marked unreachable"); return {DEAD, {}};
          case Instruction::Br: {
            if (d.ops.empty()) { next = blk.succ[0]; break; }
            Val c = get(f, d.ops[0]);
            if (res) ++res->branches;
            if (c.k == K::Int) { next = blk.succ[c.i ? 0 : 1]; break; }
            std::vector<std::pair<Val,int>> arms; 
            checkCond(c, d);
            arms.push_back({c, blk.succ[0]}); arms.push_back({bNot(c), blk.succ[1]});
            Out o; int r = fork(f, b, arms, stops, pend, o); if (r != -1) { next = r; break; }
            return o; }
          case Instruction::Switch: {
            Val c = get(f, d.ops[0]); if (res) ++res->branches;
            if (c.k == K::Int) { next = blk.succ[0]; for (size_t k = 0; k < d.scale.size(); ++k) if (maskBits(d.scale[k], d.bits) == maskBits(c.i, d.bits)) { next = blk.succ[k + 1]; break; } break; }
            checkCond(c, d);
            std::vector<std::pair<Val,int>> arms; Val rest = vBool(true);
            for (size_t k = 0; k < d.scale.size(); ++k) { Val e = cmpInt(CmpInst::ICMP_EQ, c, vInt(d.scale[k], d.bits), d.bits); arms.push_back({bAnd(rest, e), blk.succ[k + 1]}); rest = bAnd(rest, bNot(e)); }
            arms.push_back({rest, blk.succ[0]});
            Out o; int r = fork(f, b, arms, stops, pend, o); if (r != -1) { next = r; break; }
            return o; }
          case Instruction::Call: case Instruction::Invoke: {
            if (d.op == Instruction::Invoke) { f.invDepth = depth; f.invScope = curScope; }
            if (!call(f, d)) {
              if (d.op != Instruction::Invoke || caughtFrame < 0 || stack[caughtFrame] != &f) return {DEAD, {}};
              caughtFrame = -1; curScope = f.invScope; f.cur = &d; next = blk.succ[1]; break;     // handled by this frame
            }
            if (d.op == Instruction::Invoke) next = blk.succ[0];
            break; }
          default: simple(f, d);
        }
        if (next != -100) break;
      }
      if (next <= -1000) { b = -1000 - next; continue; }   // phis already set by fork
      if (next == -100) throw Undecided("fell off block");
      std::vector<Val> pv = phiVals(f, b, next);
      for (int s : stops) if (s == next) return {next, pv};
      setPhis(f, next, pv); b = next;
    }
  }
  void checkCond(const Val& c, const DInst& d) {
    if (c.k == K::Undef || hasFeasibleKind(c, K::Undef)) throw MemError("uninitialised-branch", "a branch decision depends on an uninitialised value");
    if (c.k == K::Top || hasFeasibleKind(c, K::Top)) throw Undecided("branch on an unknown value at " + (d.loc ? locNames[d.loc] : anyLoc(d.I)));
  }
  bool hasFeasibleKind(const Val& c, K k) { if (!hasKind(c, k)) return false; Val u = apply1(c, [&](const Val& x) { return vBool(x.k == k); }); return feasible(bAnd(pc, u)); }

  // Undecided branch.  Returns next block encoded (>=0 plain edge, <=-1000 phis set) or -1 with out filled.
  int fork(Frame& f, int b, std::vector<std::pair<Val,int>>& arms, const std::vector<int>& stops, Lanes* pend, Out& out) {
    // drop infeasible arms
    std::vector<std::pair<Val,int>> live;
    for (auto& a : arms) { if (isFalse(a.first)) continue; Val c = bAnd(pc, a.first); if (feasible(c)) live.push_back(a); }
    if (live.empty()) { out = {DEAD, {}}; return -1; }
    if (live.size() == 1) return live[0].second;
    // join arms with identical successors
    { std::map<int, Val> by; std::vector<int> ord; for (auto& a : live) { if (by.count(a.second)) by[a.second] = bOr(by[a.second], a.first); else { by[a.second] = a.first; ord.push_back(a.second); } } live.clear(); for (int s : ord) live.push_back({by[s], s}); if (live.size() == 1) return live[0].second; }
    if (++depth > 3000) throw Undecided("fork depth limit at " + backtrace(2));
    int J = f.f->blocks[b].ipdom;
    int H = -1;
    if (widen) for (int h : f.f->blocks[b].loops) { bool jIn = J >= 0 && f.f->inLoop[f.f->headerIdx[h]][J]; if (!jIn && std::find(stops.begin(), stops.end(), h) == stops.end()) { H = h; break; } }
    std::vector<int> st2 = stops; if (J >= 0) st2.push_back(J); if (H >= 0) st2.push_back(H);
    Val pc0 = pc, rpc0 = rpc; std::vector<Val> regs0 = f.regs; Lanes merged; size_t objLo0 = objs.size();
    auto* cur0 = f.cur; auto stack0 = stack.size();
    for (auto& a : live) {
      uint32_t objLo = objs.size();
      beginJournal(); pc = bAnd(pc0, a.first); rpc = a.first; f.regs = regs0; f.cur = cur0;
      Lanes sub; Out o;
      std::vector<Val> pv = phiVals(f, b, a.second);
      if (std::find(st2.begin(), st2.end(), a.second) != st2.end()) o = {a.second, pv};
      else { setPhis(f, a.second, pv); o = run(f, a.second, st2, &sub); }
      if (o.target != DEAD) addLane(sub, o.target, captureLane(std::move(o.vals), objLo));
      rollback(); stack.resize(stack0);
      f.cur = cur0; pc = pc0;
      for (auto& l : sub) addLane(merged, l.first, std::move(l.second));
    }
    f.regs = regs0; f.cur = cur0; pc = pc0; rpc = rpc0; --depth;
    if (H >= 0 && merged.count(H)) widenLoop(f, H, J, stops, merged, regs0);
    if (merged.empty()) { out = {DEAD, {}}; return -1; }
    (void)objLo0;
    // choose the lane to continue with
    int T = merged.count(J >= 0 ? J : RET) ? (J >= 0 ? J : RET) : merged.begin()->first;
    bool total = merged.size() == 1;
    if (merged.size() > 1) {
      if (!pend) throw Undecided("unstructured control flow");
      // other lanes become pending results of this run, relative to its start
      for (auto& l : merged) if (l.first != T) {
        Lane c = std::move(l.second);
        if (!journals.empty()) {
          for (auto& k : journals.back().old) if (!c.diff.count(k.first)) { Object* o = objs[k.first.obj]; if (!o) continue; auto it = o->c.find(k.first.off); if (it == o->c.end()) c.diff[k.first] = std::nullopt; else c.diff[k.first] = it->second; }
          for (auto d : journals.back().killed) c.dead.insert(d);
          c.objLo = std::min<uint32_t>(c.objLo, journals.back().objStart);
        }
        c.sel = bAnd(rpc0, c.sel);
        addLane(*pend, l.first, std::move(c));
      }
    }
    Lane& L = merged[T];
    applyDiff(L); pc = L.pc;
    Val all = vBool(false); for (auto& a : live) all = bOr(all, a.first);
    if (!total || !(L.sel == all)) rpc = bAnd(rpc0, L.sel);
    std::vector<Val> vals = L.vals;
    if (T == J && J >= 0) {
      if (std::find(stops.begin(), stops.end(), J) != stops.end()) { out = {J, vals}; return -1; }
      setPhis(f, J, vals); return -1000 - J;
    }
    out = {T, vals}; return -1;
  }

  Val freshLike(const Val& v, const std::string& name) {
    const Val* x = &v; while (x->k == K::Dec) x = &x->dec->hi;
    unsigned bits = x->bits ? x->bits : 64;
    if (x->k == K::Fp || (x->k == K::Sym && !isIntSym(x->rf))) return vSym(rfVar(newVar(name, false)), false, bits);
    if (x->k == K::Int || x->k == K::Sym) {
      if (bits == 1 || bits == 8) { R r = rfVar(newVar(name, true)); Val c = relZero(r, Rel::LE); return ite(c, vInt(0, bits), vInt(1, bits)); }
      return vSym(rfVar(newVar(name, true)), true, bits);
    }
    return vTop();
  }
  bool isIntSym(R r) { for (auto& t : r->num->t) for (auto e : t.m) if (!vars[mvar(e)].isInt) return false; return true; }

  // Replace an undecided loop by an arbitrary iteration: everything the body may
  // change is replaced by fresh symbols, the body is analysed once from there.
  void widenLoop(Frame& f, int H, int J, const std::vector<int>& stops, Lanes& merged, const std::vector<Val>& regs0) {
    Lane h = std::move(merged[H]); merged.erase(H);
    if (res) ++res->widened;
    std::vector<int> st2 = stops; if (J >= 0) st2.push_back(J); st2.push_back(H);
    std::set<Key> Mset; std::vector<bool> phiW(h.vals.size(), false); Val pc0 = pc, rpc0 = rpc;
    auto* cur0 = f.cur; auto stack0 = stack.size(); static int serial = 0; int id = ++serial;
    for (int round = 0; round < 12; ++round) {
      for (int fin = 0; fin < 2; ++fin) {
        if (fin == 0) ++muted;
        uint32_t objLo = objs.size(); beginJournal(); applyDiff(h); pc = h.pc; rpc = h.sel; f.regs = regs0;
        std::vector<Val> pv = h.vals; int n = 0;
        for (size_t i = 0; i < pv.size(); ++i) if (phiW[i]) pv[i] = freshLike(pv[i], "it" + std::to_string(id) + "_" + std::to_string(n++));
        for (auto& k : Mset) { Object* o = objs[k.obj]; if (!o) continue; auto it = o->c.find(k.off); if (it == o->c.end()) continue; Cell c = it->second; c.v = freshLike(c.v, "it" + std::to_string(id) + "_m" + std::to_string(n++)); putCell(k.obj, k.off, c); }
        setPhis(f, H, pv);
        Lanes sub; Out o = run(f, H, st2, &sub);
        if (o.target != DEAD) addLane(sub, o.target, captureLane(std::move(o.vals), objLo));
        rollback(); stack.resize(stack0); f.cur = cur0; pc = pc0; rpc = rpc0; f.regs = regs0;
        if (fin == 0) --muted;
        bool stable = true;
        if (sub.count(H)) {
          Lane& l = sub[H];
          for (size_t i = 0; i < pv.size(); ++i) if (!(l.vals[i] == pv[i]) && !phiW[i]) { phiW[i] = true; stable = false; }
          for (auto& k : l.diff) if (k.first.obj < objLo && !Mset.count(k.first)) { auto hd = h.diff.find(k.first); std::optional<Cell> base; if (hd != h.diff.end()) base = hd->second; else { Object* ob = objs[k.first.obj]; if (ob) { auto it = ob->c.find(k.first.off); if (it != ob->c.end()) base = it->second; } }
            if (base && k.second && base->v == k.second->v) continue; Mset.insert(k.first); stable = false; }
        }
        if (!stable) break;
        if (fin == 1) { sub.erase(H); for (auto& l : sub) { Lane c = std::move(l.second); for (auto& k : h.diff) if (!c.diff.count(k.first)) c.diff[k.first] = k.second; c.objLo = std::min(c.objLo, h.objLo); addLane(merged, l.first, std::move(c)); } return; }
      }
    }
    throw Undecided("loop widening did not stabilise at " + backtrace(1));
  }

  void simple(Frame& f, DInst& d) {
    Val r;
    switch (d.op) {
      case Instruction::Alloca: { Val n = get(f, d.ops[0]); if (n.k != K::Int) throw Undecided("symbolic alloca"); uint32_t o = newObj(OK::Stack, d.cst * n.i); f.allocas.push_back(o); r = vPtr(o, 0); break; }
      case Instruction::Load: { Atomic at(atomicAccess, cast<LoadInst>(d.I)->isAtomic()); r = loadT(tlsAddr(get(f, d.ops[0])), d.ty); if (cast<LoadInst>(d.I)->isAtomic()) atomicLoad(get(f, d.ops[0]), isAcquireOrStronger(cast<LoadInst>(d.I)->getOrdering())); f.regs[d.dst] = r; return; }
      case Instruction::Store: { Atomic at(atomicAccess, cast<StoreInst>(d.I)->isAtomic()); Val v = get(f, d.ops[0]); storeT(tlsAddr(get(f, d.ops[1])), v, d.ty); return; }
      case Instruction::GetElementPtr: {
        r = ptrOff(get(f, d.ops[0]), d.cst);
        for (size_t k = 1; k < d.ops.size(); ++k) { Val ix = get(f, d.ops[k]); int64_t s = d.scale[k - 1];
          r = apply2(r, ix, [&](const Val& p, const Val& i) -> Val { if (i.k == K::Int) return ptrAdd(p, s * sextBits(i.i, i.bits)); if (i.k == K::Undef) return Val(); if (p.k == K::Undef) return p; if (i.k == K::Top) return vTop(); return symIndex(p, i, s); }); }
        f.regs[d.dst] = r; return; }
      case Instruction::FNeg: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { if (x.k == K::Fp) return vFp(-x.d, x.bits); if (x.k == K::Sym) return vSym(rfNeg(x.rf), false, x.bits); return x; }); break;
      case Instruction::ICmp: r = cmpInt(d.cst, get(f, d.ops[0]), get(f, d.ops[1]), d.obits ? d.obits : 64); break;
      case Instruction::FCmp: r = cmpFp(d.cst, get(f, d.ops[0]), get(f, d.ops[1])); break;
      case Instruction::Select: { Val c = get(f, d.ops[0]); r = ite(c, get(f, d.ops[1]), get(f, d.ops[2])); break; }
      case Instruction::ZExt: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { if (x.k == K::Int) return vIntU(maskBits(x.i, d.obits), x.um, std::min(64u, d.bits)); Val y = x; y.bits = d.bits; return y; }); break;
      case Instruction::SExt: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { if (x.k == K::Int && x.um) return Val(); if (x.k == K::Int) return vInt((uint64_t)sextBits(x.i, d.obits), std::min(64u, d.bits)); Val y = x; y.bits = d.bits; return y; }); break;
      case Instruction::Trunc: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { if (x.k == K::Int) return vIntU(x.i, x.um, d.bits); Val y = x; y.bits = d.bits; return y; }); break;
      case Instruction::FPExt: case Instruction::FPTrunc: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { if (x.k == K::Fp) return vFp(x.d, d.bits); Val y = x; y.bits = d.bits; return y; }); break;
      case Instruction::SIToFP: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { if (x.k == K::Int) return vFp((long double)sextBits(x.i, d.obits), d.bits); Val y = x; y.bits = d.bits; return y; }); break;
      case Instruction::UIToFP: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { if (x.k == K::Int) return vFp((long double)maskBits(x.i, d.obits), d.bits); Val y = x; y.bits = d.bits; return y; }); break;
      case Instruction::FPToSI: case Instruction::FPToUI: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { if (x.k == K::Fp) return vInt((uint64_t)(int64_t)x.d, d.bits); if (x.k == K::Sym && x.rf->isConst()) return vInt((uint64_t)(int64_t)x.rf->num->constVal().get_d(), d.bits); if (x.k == K::Sym) return opaque("trunc(" + rfStr(x.rf) + ")#" + std::to_string(x.rf->id), true, d.bits); return x; }); break;
      case Instruction::BitCast: r = apply1(get(f, d.ops[0]), [&](const Val& x) -> Val { return d.ty->isVectorTy() || x.k == K::Agg ? x : convertTo(x, d.ty); }); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast: r = get(f, d.ops[0]); f.regs[d.dst] = r; return;
      case Instruction::LandingPad: { uint32_t o = newObj(OK::Heap, 16); r = vAgg({vPtr(o, 0), vInt(caughtSel, 32)}); f.regs[d.dst] = r; return; }
      case Instruction::ExtractValue: { r = get(f, d.ops[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) r = aggEl(r, i); f.regs[d.dst] = r; return; }
      case Instruction::InsertValue: { r = insertVal(get(f, d.ops[0]), get(f, d.ops[1]), cast<InsertValueInst>(d.I)->getIndices(), d.ty); f.regs[d.dst] = r; return; }
      case Instruction::ExtractElement: { Val ix = get(f, d.ops[1]); if (ix.k != K::Int) throw Undecided("symbolic lane"); r = aggEl(get(f, d.ops[0]), ix.i); break; }
      case Instruction::InsertElement: { Val ix = get(f, d.ops[2]); if (ix.k != K::Int) throw Undecided("symbolic lane"); Val a = get(f, d.ops[0]); std::vector<Val> v; unsigned n = cast<FixedVectorType>(d.ty)->getNumElements(); for (unsigned i = 0; i < n; ++i) v.push_back(i == ix.i ? get(f, d.ops[1]) : aggEl(a, i)); r = vAgg(std::move(v)); break; }
      case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(d.I); Val a = get(f, d.ops[0]), b = get(f, d.ops[1]); unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); std::vector<Val> v; for (int m : sv->getShuffleMask()) v.push_back(m < 0 ? Val() : m < (int)n ? aggEl(a, m) : aggEl(b, m - n)); r = vAgg(std::move(v)); break; }
      case Instruction::AtomicRMW: { Atomic at(atomicAccess, true); auto* a = cast<AtomicRMWInst>(d.I); Val p = get(f, d.ops[0]); Val old = loadT(p, d.ty); Val v = get(f, d.ops[1]); Val nv; switch (a->getOperation()) { case AtomicRMWInst::Add: nv = arith(Instruction::Add, old, v, d.bits, false); break; case AtomicRMWInst::Sub: nv = arith(Instruction::Sub, old, v, d.bits, false); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = arith(Instruction::And, old, v, d.bits, false); break; case AtomicRMWInst::Or: nv = arith(Instruction::Or, old, v, d.bits, false); break; case AtomicRMWInst::Xor: nv = arith(Instruction::Xor, old, v, d.bits, false); break; default: throw Undecided("atomicrmw"); } storeT(p, nv, d.ty); r = old; break; }
      case Instruction::AtomicCmpXchg: { Atomic at(atomicAccess, true); Val p = get(f, d.ops[0]); Type* t = cast<AtomicCmpXchgInst>(d.I)->getCompareOperand()->getType(); Val old = loadT(p, t); Val eq = cmpInt(CmpInst::ICMP_EQ, old, get(f, d.ops[1]), tyBits(t)); storeT(p, ite(eq, get(f, d.ops[2]), old), t); r = vAgg({old, eq}); break; }
      case Instruction::Fence: return;
      default:
        if (Instruction::isBinaryOp(d.op)) {
          unsigned bits = d.bits; if (d.ty->isVectorTy()) { bits = tyBits(cast<VectorType>(d.ty)->getElementType()); r = arith(d.op, get(f, d.ops[0]), get(f, d.ops[1]), bits, d.ty->isFPOrFPVectorTy()); }
          else if (bits == 1 && (d.op == Instruction::And || d.op == Instruction::Or || d.op == Instruction::Xor)) {
            Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
            auto undef = [](const Val& v) { return v.k == K::Undef || v.k == K::Top; };
            if (undef(a) || undef(b)) r = undef(a) ? a : b;
            else r = d.op == Instruction::And ? bAnd(a, b) : d.op == Instruction::Or ? bOr(a, b) : ite(a, bNot(b), b);
          } else { if (bits > 64 && !d.isFp) throw Undecided("128-bit arithmetic"); r = arith(d.op, get(f, d.ops[0]), get(f, d.ops[1]), bits, d.isFp); }
          break;
        }
        throw Undecided(std::string("instruction ") + d.I->getOpcodeName());
    }
    tag(r, d, f); f.regs[d.dst] = r;
  }
  Val ptrOff(const Val& p, int64_t c) { if (!c) return p; return apply1(p, [&](const Val& x) { return ptrAdd(x, c); }); }
  Val symIndex(const Val& p, const Val& i, int64_t s) {
    // a symbolic index whose value is confined to few integers becomes a gated pointer
    if (p.k == K::Ptr) { Object* o = objs[p.p.obj]; int64_t n = o ? (o->size - p.p.off) / std::max<int64_t>(s, 1) : 0; R r = toRF(i);
      if (n > 0 && n <= 64) { Val acc; bool first = true; Val covered = vBool(false); for (int64_t k = n - 1; k >= 0; --k) { Val e = relZero(rfSub(r, rfConst(Q((long)k))), Rel::EQ); covered = bOr(covered, e); if (!feasible(bAnd(pc, e))) continue; Val q = ptrAdd(p, k * s); acc = first ? q : ite(e, q, acc); first = false; } if (!first && !feasible(bAnd(pc, bNot(covered)))) return acc; } }
    if (p.k == K::Ptr && objs[p.p.obj] && objs[p.p.obj]->kind != OK::Fn) { Object* o = objs[p.p.obj]; int64_t st = std::max<int64_t>(s, 1), lo = -(p.p.off / st), hi = (o->size - p.p.off) / st - 1; R r = toRF(i);
      Val in = bAnd(bNot(relZero(rfSub(r, rfConst(Q((long)lo))), Rel::LT)), bNot(relZero(rfSub(r, rfConst(Q((long)hi))), Rel::GT)));
      if (!feasible(bAnd(pc, in))) throw MemError("out-of-bounds", "element " + valStr(i) + " of an object of " + std::to_string(o->size) + " bytes, never inside"); }
    throw Undecided("symbolic array index " + valStr(i) + " at " + backtrace(2)); }
  Val insertVal(const Val& a, const Val& e, ArrayRef<unsigned> ix, Type* t) {
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements(); std::vector<Val> v;
    for (unsigned i = 0; i < n; ++i) { Val el = aggEl(a, i); if (i == ix[0]) el = ix.size() == 1 ? e : insertVal(el, e, ix.slice(1), isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType()); v.push_back(el); }
    return vAgg(std::move(v));
  }
  void atomicLoad(const Val& p, bool acquire) {
    if (effects && acquire && p.k == K::Ptr && p.p.obj < objs.size() && objs[p.p.obj]) { auto& c = objs[p.p.obj]->c; auto it = c.find(p.p.off); if (it != c.end() && it->second.scope) passed.insert(it->second.scope); }
    if (!effects || p.k != K::Ptr) return; auto it = onceScope.find({p.p.obj, p.p.off}); if (it != onceScope.end()) { Object* o = objs[p.p.obj]; int b = o ? getByte(o, p.p.off) : 0; if (b > 0) passed.insert(it->second); }
  }

  int typeId(const std::string& n) { auto it = typeIds.find(n); if (it == typeIds.end()) it = typeIds.emplace(n, (int)typeIds.size() + 1).first; return it->second; }
  static bool stdDerives(std::string t, const std::string& base) { // exceptions raised by library functions without a body
    static const std::map<std::string, std::string> up = {{"std::out_of_range", "std::logic_error"}, {"std::length_error", "std::logic_error"}, {"std::invalid_argument", "std::logic_error"}, {"std::logic_error", "std::exception"}, {"std::runtime_error", "std::exception"}, {"std::bad_cast", "std::exception"}, {"std::bad_alloc", "std::exception"}, {"std::bad_function_call", "std::exception"}, {"std::system_error", "std::runtime_error"}};
    for (int k = 0; k < 5; ++k) { if (t == base) return true; auto it = up.find(t); if (it == up.end()) return false; t = it->second; }
    return false;
  }
  // 1: cleans up and rethrows, 2: terminates, 0: other
  int handlerKind(const BasicBlock* b0) {
    std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> w{b0}; int k = 0;
    while (!w.empty()) { auto* b = w.back(); w.pop_back(); if (!seen.insert(b).second || seen.size() > 20) continue;
      for (auto& i : *b) if (auto* cb = dyn_cast<CallBase>(&i)) if (auto* c = cb->getCalledFunction()) { if (c->getName() == "__cxa_rethrow") return 1; if (c->getName() == "__clang_call_terminate" && b == b0) k = 2; }
      for (auto* s : successors(b)) w.push_back(s); }
    return k;
  }
  // code that only prepares a message: from the pending call of a function of the repository, every normal path ends in a throw
  size_t scanTop = SIZE_MAX;
  bool doomed(size_t& at) {
    for (size_t k = stack.size(); k-- > catchBase; ) {
      Frame* fr = stack[k]; if (!fr->cur || !fr->cur->I || !fr->f->inRepo) continue;
      std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> w{fr->cur->I->getParent()}; bool first = true, thrown = false, ret = false;
      while (!w.empty() && !ret) { auto* b = w.back(); w.pop_back(); if (!first && !seen.insert(b).second) continue;
        bool stop = false;
        for (auto it = first ? fr->cur->I->getIterator() : b->begin(); it != b->end(); ++it) { if (auto* cb = dyn_cast<CallBase>(&*it)) if (auto* c = cb->getCalledFunction()) if (c->getName() == "__cxa_throw") { thrown = stop = true; break; } if (isa<ReturnInst>(&*it)) ret = true; }
        first = false; if (stop) continue;
        if (auto* iv = dyn_cast<InvokeInst>(b->getTerminator())) w.push_back(iv->getNormalDest()); else for (auto* s : successors(b)) w.push_back(s); }
      if (!ret && thrown) { at = k; return true; }
    }
    return false;
  }
  // the innermost active handler of the analysed program that takes this exception
  bool findHandler(const std::string& type, const GlobalVariable* ti) {
    if (type == "assertion" || type == "abort" || type == "unreachable") return false;
    std::string st; { size_t p = type.find("__throw_"); if (p != std::string::npos) { st = type.substr(p + 8); st = "std::" + st.substr(0, st.find('(')); } if (type == "__cxa_bad_cast") st = "std::bad_cast"; }
    for (size_t k = std::min(stack.size(), scanTop); k-- > catchBase; ) {
      Frame* fr = stack[k]; if (!fr->cur || fr->cur->op != Instruction::Invoke) continue;
      auto* lp = cast<InvokeInst>(fr->cur->I)->getLandingPadInst();
      for (unsigned c = 0; c < lp->getNumClauses(); ++c) { if (!lp->isCatch(c)) continue;
        auto* cl = dyn_cast<GlobalVariable>(lp->getClause(c)->stripPointerCasts()); bool all = !cl;
        std::string cn = cl ? demangle(cl->getName().str()) : ""; if (cn.rfind("typeinfo for ", 0) == 0) cn = cn.substr(13);
        if (all) { int h = handlerKind(lp->getParent()); if (h == 1) continue; if (h == 2) return false; }
        bool m = all || (!st.empty() ? stdDerives(st, cn) : ti ? typeDerives(constVal(ti), constVal(cl)) : false);
        if (!m) continue;
        if (depth != fr->invDepth) throw Undecided("exception under an undecided condition caught by the program");
        caughtFrame = (int)k; caughtSel = all ? typeId("") : typeId(cl->getName().str()); return true; }
    }
    return false;
  }
  void throwEvent(const std::string& type, const std::string& msg, const GlobalVariable* ti = nullptr) {
    lastThrow = type; caughtFrame = -1;
    if (findHandler(type, ti)) return;
    if (muted || catchDepth || allowThrow || expectThrow) return;
    std::string path; Val c = pc; findPath(c, path);
    violation("throw", msg + " [" + type + "]", curLoc(), path);
  }

  // ---- calls -------------------------------------------------------------------------
  bool captured = false; std::string capBT, capH;   // location of the innermost failure
  // returns false if the call never returns
  bool callFunc(const Function* F, std::vector<Val>&& args, Val& ret, uint32_t baseLoc) {
    DFunc* df = decode(F); ++df->calls;
    if (stack.size() > 20000) throw Undecided("call depth");
    Frame fr; fr.f = df; fr.regs.resize(df->nregs); fr.baseLoc = df->inRepo || df->inHarness ? 0 : baseLoc;
    size_t na = F->arg_size(); for (size_t i = 0; i < na && i < args.size(); ++i) fr.regs[i] = args[i];
    for (size_t i = 0; i < na && i < args.size(); ++i) if (F->hasParamAttribute(i, Attribute::ByVal)) { Type* t = F->getParamByValType(i); int64_t n = DL.getTypeAllocSize(t); uint32_t o = newObj(OK::Stack, n); fr.allocas.push_back(o); memCopy(vPtr(o, 0), args[i], n); fr.regs[i] = vPtr(o, 0); }
    if (df->inRepo && !stack.empty() && stack.back()->f->inHarness) { if (recent.empty() || recent.back() != df) recent.push_back(df); if (recent.size() > 3) recent.erase(recent.begin()); }
    stack.push_back(&fr); size_t sz = stack.size();
    Lanes pend; Out o;
    try { o = run(fr, 0, {}, &pend); } catch (...) { if (!captured) { captured = true; capBT = backtrace(); capH = harnessLoc(); } stack.resize(sz - 1); throw; }
    stack.resize(sz - 1);
    if (!pend.empty()) { // early returns collected: merge with the final one
      throw Undecided("pending lanes at function end"); }
    for (auto a : fr.allocas) killObj(a, true);
    if (o.target == DEAD) return false;
    if (!o.vals.empty()) ret = o.vals[0];
    return true;
  }
  bool call(Frame& f, DInst& d) {
    const Function* F = d.callee; std::vector<Val> args; args.reserve(d.ops.size());
    for (auto& o : d.ops) args.push_back(get(f, o));
    if (!F) {
      Val fp = args.back(); args.pop_back();
      if (fp.k == K::Dec) fp = simplifyUnder(fp, pc);
      if (fp.k != K::Ptr) { if (fp.k == K::Undef || fp.k == K::Int) throw MemError("bad-call", "call through an invalid function pointer"); throw Undecided("indirect call through unknown pointer"); }
      Object* o = objs[fp.p.obj]; if (!o || o->kind != OK::Fn) throw MemError("bad-call", "call through a non-function pointer");
      F = cast<Function>(o->site);
    }
    Val ret; uint32_t loc = d.loc ? d.loc : f.baseLoc;
    bool handled = false; bool alive = external(F, args, ret, d, handled);
    if (!handled) {
      size_t at;
      if (F->isDeclaration() && doomed(at)) { const GlobalVariable* ti = nullptr; std::string t = throwType(stack[at]->cur->I, ti); scanTop = at + 1; throwEvent(t, "exception raised", ti); scanTop = SIZE_MAX; return false; }
      if (F->isDeclaration()) throw Undecided("unmodelled external function " + demangle(F->getName().str()) + " called at " + backtrace(2));
      alive = callFunc(F, std::move(args), ret, loc);
    }
    if (!alive) return false;
    if (d.dst >= 0) { if (handled && ret.k != K::Ptr) tag(ret, d, f); f.regs[d.dst] = ret; }
    return true;
  }
  long double ldArg(const Val& v) { if (v.k == K::Sym && v.rf->isConst()) return v.rf->num->constVal().get_d(); if (v.k != K::Fp) throw Undecided("constant expected"); return v.d; }
  int64_t intArg(const Val& v) { if (v.k != K::Int) throw Undecided("constant integer expected, got " + valStr(v) + " at " + backtrace(3)); return sextBits(v.i, v.bits ? v.bits : 64); }
  Val unaryOpaque(const char* name, const Val& a, long double (*fn)(long double)) {
    return apply1(a, [&](const Val& x) -> Val { if (x.k == K::Fp) return vFp(x.bits == 64 ? (long double)(double)fn(x.d) : fn(x.d), x.bits); if (x.k != K::Sym) return x; return opaque(std::string(name) + "(" + rfStr(x.rf) + ")#" + std::to_string(x.rf->id), false, x.bits); });
  }
  std::string throwType(const Instruction* from, const GlobalVariable*& ti) {
    // first __cxa_throw reachable from here in the same function
    std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> w{from->getParent()}; bool first = true;
    while (!w.empty()) { auto* b = w.back(); w.pop_back(); if (!seen.insert(b).second) continue;
      for (auto it = first ? from->getIterator() : b->begin(); it != b->end(); ++it) if (auto* cb = dyn_cast<CallBase>(&*it)) if (auto* c = cb->getCalledFunction()) if (c->getName() == "__cxa_throw") { ti = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts()); return demangle(cb->getArgOperand(1)->getName().str()); }
      first = false; for (auto* s : successors(b)) w.push_back(s); }
    return "exception";
  }
#include "extern.inc"
