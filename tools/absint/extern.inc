  enum Mod { X_NONE = 0, X_NEW, X_DELETE, X_MALLOC, X_FREE, X_MEMCPY, X_MEMSET, X_NOP, X_FABS, X_SQRT, X_GUARD_ACQ, X_GUARD_REL, X_ATEXIT, X_ALLOCEXC, X_THROWFN, X_ASSERT, X_ABORT,
    X_FMULADD, X_LIFESTART, X_LIFEEND, X_UMAX, X_UMIN, X_SMAX, X_SMIN, X_ABS, X_POW, X_SIN, X_COS, X_EXP, X_LOG, X_TAN, X_FLOOR, X_CEIL, X_FMAX, X_FMIN, X_COPYSIGN, X_HYPOT, X_ISNAN, X_STRLEN, X_MEMCMP, X_MEMCHR, X_ONCE, X_TLSADDR, X_EXPECT, X_OVERFLOW, X_DYNCAST, X_RETARG0, X_OBJSIZE, X_MTXLOCK, X_MTXUNLOCK, X_RDLOCK, X_FSHL, X_FSHR, X_CTLZ, X_CTTZ, X_CTPOP, X_RET0, X_ISCONST, X_FPCLASS, X_TGAMMA, X_TRAP, X_ROUND, X_STRCMP, X_GEEV, X_RETHROW, X_TYPEID,
    V_REAL, V_INT, V_ASSUME, V_TRUE, V_EQ, V_EQI, V_EQP, V_LABEL, V_LABELS, V_DIFF, V_SUBST, V_CATCH, V_EXPECT, V_ALLOW, V_PRINT, V_WIDEN, V_RPT, V_RCHECK, V_RINSIDE, V_HPSTR, V_HPD, V_HPOP, V_HPGET, V_HPPT, V_HPCHECK, V_TOL, V_EFF, V_MUSTHROW, V_ISCONST, V_OPAQUE, V_EQHP, V_COVER, V_POLYCOEF, V_FEAS, V_SAMEOBJ, V_EXACT };
  std::unordered_map<const Function*, int> modelTab;
  int classify(const Function* F) {
    StringRef n = F->getName();
    static const std::unordered_map<std::string, int> tab = {
      {"_Znwm", X_NEW}, {"_Znam", X_NEW}, {"_ZnwmSt11align_val_t", X_NEW}, {"_ZnamSt11align_val_t", X_NEW}, {"_ZnwmRKSt9nothrow_t", X_NEW}, {"malloc", X_MALLOC}, {"free", X_FREE},
      {"_ZdlPv", X_DELETE}, {"_ZdaPv", X_DELETE}, {"_ZdlPvm", X_DELETE}, {"_ZdaPvm", X_DELETE}, {"_ZdlPvSt11align_val_t", X_DELETE}, {"_ZdlPvmSt11align_val_t", X_DELETE},
      {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"fabs", X_FABS}, {"fabsf", X_FABS}, {"fabsl", X_FABS}, {"sqrt", X_SQRT}, {"sqrtf", X_SQRT}, {"sqrtl", X_SQRT},
      {"__cxa_guard_acquire", X_GUARD_ACQ}, {"__cxa_guard_release", X_GUARD_REL}, {"__cxa_guard_abort", X_NOP}, {"__cxa_atexit", X_ATEXIT}, {"__cxa_thread_atexit", X_ATEXIT}, {"__cxa_allocate_exception", X_ALLOCEXC}, {"__cxa_throw", X_THROWFN}, {"__cxa_rethrow", X_RETHROW}, {"__cxa_begin_catch", X_RETARG0}, {"__cxa_end_catch", X_NOP}, {"__cxa_bad_cast", X_THROWFN}, {"__cxa_pure_virtual", X_ABORT}, {"__cxa_throw_bad_array_new_length", X_THROWFN},
      {"__assert_fail", X_ASSERT}, {"abort", X_ABORT}, {"_ZSt9terminatev", X_ABORT}, {"exit", X_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_ABORT},
      {"pow", X_POW}, {"powf", X_POW}, {"powl", X_POW}, {"sin", X_SIN}, {"cos", X_COS}, {"sinl", X_SIN}, {"cosl", X_COS}, {"exp", X_EXP}, {"log", X_LOG}, {"tan", X_TAN}, {"floor", X_FLOOR}, {"ceil", X_CEIL}, {"round", X_ROUND}, {"fmax", X_FMAX}, {"fmin", X_FMIN}, {"hypot", X_HYPOT}, {"tgamma", X_TGAMMA}, {"copysign", X_COPYSIGN},
      {"strlen", X_STRLEN}, {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP}, {"memchr", X_MEMCHR}, {"strcmp", X_STRCMP}, {"pthread_once", X_ONCE}, {"__dynamic_cast", X_DYNCAST}, {"pthread_mutex_lock", X_MTXLOCK}, {"pthread_rwlock_wrlock", X_MTXLOCK}, {"pthread_rwlock_rdlock", X_RDLOCK}, {"pthread_rwlock_unlock", X_MTXUNLOCK}, {"pthread_rwlock_init", X_RET0}, {"pthread_rwlock_destroy", X_RET0}, {"pthread_mutex_unlock", X_MTXUNLOCK}, {"__gthread_active_p", X_RET0},
      {"_ZNSt8ios_base4InitC1Ev", X_NOP}, {"_ZNSt8ios_base4InitD1Ev", X_NOP}, {"_ZNSt9exceptionD2Ev", X_NOP}, {"_ZN4Dune16doAssertCallOnceEPKciS1_", X_NOP}, {"_ZN4Dune11FMatrixHelp27eigenValuesNonsymLapackCallEPKcS2_PKlPdS4_S5_S5_S5_S4_S5_S4_S5_S4_Pl", X_GEEV},
      {"v_real", V_REAL}, {"v_int", V_INT}, {"v_assume", V_ASSUME}, {"v_true", V_TRUE}, {"v_eq", V_EQ}, {"v_eqi", V_EQI}, {"v_eqp", V_EQP}, {"v_label", V_LABEL}, {"v_labels", V_LABELS}, {"v_diff", V_DIFF}, {"v_subst", V_SUBST}, {"v_catch", V_CATCH}, {"v_allow_throw", V_ALLOW}, {"v_print", V_PRINT}, {"v_widen", V_WIDEN},
      {"v_rpt", V_RPT}, {"v_rcheck", V_RCHECK}, {"v_rinside", V_RINSIDE}, {"v_hpstr", V_HPSTR}, {"v_hpd", V_HPD}, {"v_hpop", V_HPOP}, {"v_hpget", V_HPGET}, {"v_hppt", V_HPPT}, {"v_hpcheck", V_HPCHECK}, {"v_hpeq", V_EQHP}, {"v_tol", V_TOL}, {"v_effects", V_EFF}, {"v_isconst", V_ISCONST}, {"v_opaque", V_OPAQUE}, {"v_feasible", V_FEAS}, {"v_exact", V_EXACT} };
    auto it = tab.find(n.str()); if (it != tab.end()) return it->second;
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) return X_MEMCPY;
    if (n.starts_with("llvm.memset")) return X_MEMSET;
    if (n.starts_with("llvm.eh.typeid.for")) return X_TYPEID;
    if (n.starts_with("llvm.fabs")) return X_FABS; if (n.starts_with("llvm.sqrt")) return X_SQRT; if (n.starts_with("llvm.fmuladd") || n.starts_with("llvm.fma.")) return X_FMULADD;
    if (n.starts_with("llvm.lifetime.start")) return X_LIFESTART; if (n.starts_with("llvm.lifetime.end")) return X_LIFEEND;
    if (n.starts_with("llvm.umax")) return X_UMAX; if (n.starts_with("llvm.umin")) return X_UMIN; if (n.starts_with("llvm.smax")) return X_SMAX; if (n.starts_with("llvm.smin")) return X_SMIN; if (n.starts_with("llvm.abs")) return X_ABS;
    if (n.starts_with("llvm.maxnum") || n.starts_with("llvm.maximum")) return X_FMAX; if (n.starts_with("llvm.minnum") || n.starts_with("llvm.minimum")) return X_FMIN;
    if (n.starts_with("llvm.pow.") || n.starts_with("llvm.powi")) return X_POW; if (n.starts_with("llvm.floor")) return X_FLOOR; if (n.starts_with("llvm.ceil")) return X_CEIL; if (n.starts_with("llvm.round")) return X_ROUND; if (n.starts_with("llvm.copysign")) return X_COPYSIGN;
    if (n.starts_with("llvm.sin")) return X_SIN; if (n.starts_with("llvm.cos")) return X_COS; if (n.starts_with("llvm.exp.")) return X_EXP; if (n.starts_with("llvm.log.")) return X_LOG;
    if (n.starts_with("llvm.threadlocal.address")) return X_TLSADDR; if (n.starts_with("llvm.expect")) return X_EXPECT; if (n.starts_with("llvm.launder") || n.starts_with("llvm.strip.inv")) return X_RETARG0;
    if (n.contains(".with.overflow.")) return X_OVERFLOW; if (n.starts_with("llvm.objectsize")) return X_OBJSIZE; if (n.starts_with("llvm.fshl")) return X_FSHL; if (n.starts_with("llvm.fshr")) return X_FSHR; if (n.starts_with("llvm.ctlz")) return X_CTLZ; if (n.starts_with("llvm.cttz")) return X_CTTZ; if (n.starts_with("llvm.ctpop")) return X_CTPOP;
    if (n.starts_with("llvm.trap") || n.starts_with("llvm.ubsantrap")) return X_TRAP; if (n.starts_with("llvm.is.constant")) return X_ISCONST; if (n.starts_with("llvm.is.fpclass")) return X_FPCLASS;
    if (n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.stackrestore")) return X_NOP;
    if (n.starts_with("llvm.stacksave")) return X_RET0;
    if (n.starts_with("_ZSt") && n.contains("__throw_")) return X_THROWFN;
    if (n.starts_with("__gthrw") ) return X_NONE;
    return X_NONE;
  }
  Val minmax(const Val& a, const Val& b, unsigned pred, unsigned bits) { return ite(cmpInt(pred, a, b, bits), a, b); }
  Val strideCheck(const Val& v) { return v; }
  void assumeV(const Val& c) { pc = bAnd(pc, c); }
  bool typeDerives(const Val& ti, const Val& dst) { // Itanium type_info walk, single inheritance
    Val t = ti; for (int k = 0; k < 20; ++k) { if (t.k != K::Ptr) return false; if (t == dst) return true; Object* o = objs[t.p.obj]; if (!o || o->size < 24) return false; auto it = o->c.find(16); if (it == o->c.end()) return false; t = it->second.v; }
    return false;
  }
  bool external(const Function* F, std::vector<Val>& a, Val& ret, DInst& d, bool& handled) {
    int m = d.callee == F ? d.model : -1;
    if (m < 0) { auto it = modelTab.find(F); if (it == modelTab.end()) it = modelTab.emplace(F, classify(F)).first; m = it->second; if (d.callee == F) d.model = m; }
    if (m == X_NONE) { handled = false; return true; }
    handled = true;
    switch (m) {
      case X_NEW: case X_MALLOC: { int64_t n = intArg(a[0]); if (n < 0 || n > (int64_t)1 << 32) throw MemError("bad-allocation", "allocation of " + std::to_string((uint64_t)n) + " bytes"); uint32_t o = newObj(OK::Heap, n); ret = vPtr(o, 0); objs[o]->array = F->getName().starts_with("_Zna"); return true; }
      case X_DELETE: case X_FREE: {
        std::function<void(const Val&, const Val&)> fr = [&](const Val& p, const Val& c) {
          if (p.k == K::Dec) { Val at = vDec(p.dec->a, vBool(true), vBool(false)); fr(p.dec->hi, bAnd(c, at)); fr(p.dec->lo, bAnd(c, bNot(at))); return; }
          if (!feasible(c)) return;
          if (p.k == K::Int && p.i == 0) return;
          if (p.k == K::Undef) throw MemError("bad-free", "release of an uninitialised pointer"); if (p.k != K::Ptr) throw Undecided("release of unknown pointer");
          Object* o = objs[p.p.obj]; if (!o || !o->alive) throw MemError("double-free", "storage released twice"); if (o->kind != OK::Heap || p.p.off != 0) throw MemError("bad-free", "release of storage that was not allocated");
          bool arr = F->getName().starts_with("_Zda"); if (m == X_DELETE && arr != o->array) throw MemError("mismatched-free", "array and scalar allocation functions mixed");
          if (effects && !muted && p.p.obj < effObjStart && curScope == 0) violation("unsynchronised-write", "release of shared " + objName(o), curLoc());
          killObj(p.p.obj, false); if (journals.empty()) o->c.clear(); };
        fr(a[0], pc); return true; }
      case X_MEMCPY: { Val n = a[2].k == K::Dec ? simplifyUnder(a[2], pc) : a[2]; int64_t k = intArg(n); if (k == 0) return true; Val dp = a[0].k == K::Dec ? simplifyUnder(a[0], pc) : a[0], sp = a[1].k == K::Dec ? simplifyUnder(a[1], pc) : a[1];
        if (sp.k == K::Dec || dp.k == K::Dec) { for (int64_t o = 0; o < k; o += 8) { if (k - o < 8) { if (k - o == 4) storeT(ptrOff(dp, o), loadT(ptrOff(sp, o), Type::getInt32Ty(M.getContext())), Type::getInt32Ty(M.getContext())); else throw Undecided("gated copy of odd size"); } else storeT(ptrOff(dp, o), loadT(ptrOff(sp, o), Type::getInt64Ty(M.getContext())), Type::getInt64Ty(M.getContext())); } }
        else memCopy(dp, sp, k);
        ret = a[0]; return true; }
      case X_GEEV: { // eigenvalue routine of the linear algebra library, replaced by its contract: eigenpairs of a constant symmetric matrix, unit length vectors
        Type* I = Type::getInt64Ty(M.getContext()); Type* D = Type::getDoubleTy(M.getContext()); auto at = [&](const Val& p, int64_t i) { Val q = p; q.p.off += 8 * i; return q; };
        int n = intArg(loadT(a[2], I)), lda = intArg(loadT(a[4], I)), ldvr = intArg(loadT(a[10], I)); if (n < 1 || n > 512 || lda < n || ldvr < n) throw Undecided("eigenvalue problem of size " + std::to_string(n));
        std::vector<long double> A(n * n), V(n * n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i * n + j] = ldArg(loadT(at(a[3], (int64_t)j * lda + i), D));
        for (int i = 0; i < n; ++i) { V[i * n + i] = 1; for (int j = 0; j < i; ++j) if (A[i * n + j] != A[j * n + i]) throw Undecided("eigenvalue problem of an unsymmetric matrix"); }
        for (int sweep = 0; sweep < 60; ++sweep) { long double off = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) off += A[i * n + j] * A[i * n + j]; if (off < 1e-40L) break;
          for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) { long double apq = A[p * n + q]; if (fabsl(apq) < 1e-30L) continue; long double th = (A[q * n + q] - A[p * n + p]) / (2 * apq), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
            for (int k = 0; k < n; ++k) { long double x = A[k * n + p], y = A[k * n + q]; A[k * n + p] = c * x - s * y; A[k * n + q] = s * x + c * y; } for (int k = 0; k < n; ++k) { long double x = A[p * n + k], y = A[q * n + k]; A[p * n + k] = c * x - s * y; A[q * n + k] = s * x + c * y; }
            for (int k = 0; k < n; ++k) { long double x = V[k * n + p], y = V[k * n + q]; V[k * n + p] = c * x - s * y; V[k * n + q] = s * x + c * y; } } }
        for (int i = 0; i < n; ++i) { storeT(at(a[5], i), vFp((double)A[i * n + i]), D); storeT(at(a[6], i), vFp(0), D); if (a[9].k == K::Ptr) for (int k = 0; k < n; ++k) storeT(at(a[9], (int64_t)i * ldvr + k), vFp((double)V[k * n + i]), D); }
        storeT(a[13], vInt(0, 64), I); return true; }
      case X_MEMSET: { int64_t n = intArg(a[2]); memSet(a[0], intArg(a[1]), n); ret = a[0]; return true; }
      case X_NOP: return true;
      case X_RET0: ret = vInt(0, 32); return true;
      case X_ISCONST: ret = vBool(false); return true;
      case X_FABS: ret = fabsV(a[0]); return true;
      case X_SQRT: ret = sqrtV(a[0]); return true;
      case X_FMULADD: { unsigned b = tyBits(F->getReturnType()); ret = arith(Instruction::FAdd, arith(Instruction::FMul, a[0], a[1], b, true), a[2], b, true); return true; }
      case X_LIFESTART: { Val p = a[1]; if (p.k == K::Ptr && objs[p.p.obj] && !objs[p.p.obj]->c.empty()) { std::vector<int64_t> ks; for (auto& c : objs[p.p.obj]->c) ks.push_back(c.first); for (auto k : ks) delCell(p.p.obj, k); } return true; }
      case X_LIFEEND: return true;
      case X_UMAX: ret = minmax(a[0], a[1], CmpInst::ICMP_UGT, tyBits(F->getReturnType())); return true; case X_UMIN: ret = minmax(a[0], a[1], CmpInst::ICMP_ULT, tyBits(F->getReturnType())); return true;
      case X_SMAX: ret = minmax(a[0], a[1], CmpInst::ICMP_SGT, tyBits(F->getReturnType())); return true; case X_SMIN: ret = minmax(a[0], a[1], CmpInst::ICMP_SLT, tyBits(F->getReturnType())); return true;
      case X_ABS: { unsigned b = tyBits(F->getReturnType()); Val z = vInt(0, b); ret = ite(cmpInt(CmpInst::ICMP_SLT, a[0], z, b), arith(Instruction::Sub, z, a[0], b, false), a[0]); return true; }
      case X_FMAX: ret = ite(cmpFp(CmpInst::FCMP_OGT, a[0], a[1]), a[0], a[1]); return true; case X_FMIN: ret = ite(cmpFp(CmpInst::FCMP_OLT, a[0], a[1]), a[0], a[1]); return true;
      case X_COPYSIGN: { Val ab = fabsV(a[0]); Val neg = cmpFp(CmpInst::FCMP_OLT, a[1], vFp(0)); ret = ite(neg, apply1(ab, [&](const Val& x) -> Val { if (x.k == K::Fp) return vFp(-x.d, x.bits); if (x.k == K::Sym) return vSym(rfNeg(x.rf), false, x.bits); return x; }), ab); return true; }
      case X_HYPOT: { unsigned b = tyBits(F->getReturnType()); ret = sqrtV(arith(Instruction::FAdd, arith(Instruction::FMul, a[0], a[0], b, true), arith(Instruction::FMul, a[1], a[1], b, true), b, true)); return true; }
      case X_POW: { unsigned b = tyBits(F->getReturnType()); Val e = a[1]; if (e.k == K::Int) e = vFp(sextBits(e.i, e.bits)); if (e.k == K::Fp && a[0].k == K::Fp) { ret = vFp(b == 64 ? (long double)std::pow((double)a[0].d, (double)e.d) : powl(a[0].d, e.d), b); return true; }
        if (e.k == K::Fp && e.d == (int)e.d && fabsl(e.d) <= 40) { Val r = vFp(1, b); for (int k = 0; k < fabsl(e.d); ++k) r = arith(Instruction::FMul, r, a[0], b, true); if (e.d < 0) r = arith(Instruction::FDiv, vFp(1, b), r, b, true); ret = r; return true; }
        if (e.k == K::Fp && e.d == 0.5L) { ret = sqrtV(a[0]); return true; }
        ret = vTop(); return true; }
      case X_SIN: ret = unaryOpaque("sin", a[0], sinl); return true; case X_COS: ret = unaryOpaque("cos", a[0], cosl); return true; case X_EXP: ret = unaryOpaque("exp", a[0], expl); return true; case X_LOG: ret = unaryOpaque("log", a[0], logl); return true; case X_TAN: ret = unaryOpaque("tan", a[0], tanl); return true;
      case X_FLOOR: ret = unaryOpaque("floor", a[0], floorl); return true; case X_CEIL: ret = unaryOpaque("ceil", a[0], ceill); return true; case X_ROUND: ret = unaryOpaque("round", a[0], roundl); return true; case X_TGAMMA: ret = unaryOpaque("tgamma", a[0], tgammal); return true;
      case X_FPCLASS: ret = apply1(a[0], [&](const Val& x) -> Val { if (x.k == K::Fp) { unsigned mask = intArg(a[1]); bool r = false; if (x.d != x.d) r = mask & 3; else if (std::isinf(x.d)) r = mask & (x.d < 0 ? 4 : 512); else r = mask & (4 | 8 | 16 | 32 | 64 | 128 | 256) & ~4u; return vBool(r); } if (x.k == K::Sym) return vBool((intArg(a[1]) & 0x1f8) != 0); return x; }); return true;
      case X_GUARD_ACQ: {
        Val p = a[0]; Object* o = deref(p, 8, true, "write"); int b = getByte(o, p.p.off); Key k{p.p.obj, p.p.off};
        if (b > 0) { auto it = onceScope.find(k); if (it != onceScope.end()) passed.insert(it->second); ret = vInt(0, 32); return true; }
        reentered(k, "static initialisation"); enterScope(k, "static initialisation of " + (o->site ? demangle(o->site->getName().str()) : std::string("?"))); ret = vInt(1, 32); return true; }
      case X_GUARD_REL: { Val p = a[0]; Cell c; c.v = vInt(1, 8); c.size = 1; splitRange(p.p.obj, p.p.off, 1); putCell(p.p.obj, p.p.off, c); leaveScope(); return true; }
      case X_ATEXIT: ret = vInt(0, 32); return true;
      case X_ALLOCEXC: { const GlobalVariable* ti = nullptr; std::string t = throwType(d.I, ti); throwEvent(t, "exception raised", ti); return false; }
      case X_RETHROW: throwEvent(lastThrow, "exception raised"); return false;
      case X_TYPEID: { auto* g = dyn_cast<GlobalVariable>(cast<CallBase>(d.I)->getArgOperand(0)->stripPointerCasts()); ret = vInt(g ? typeId(g->getName().str()) : typeId(""), 32); return true; }
      case X_THROWFN: throwEvent(demangle(F->getName().str()), "standard library reports an error"); return false;
      case X_ASSERT: throwEvent("assertion", "assertion '" + readStr(a[0]) + "' fails"); return false;
      case X_ABORT: case X_TRAP: throwEvent("abort", "program aborts"); return false;
      case X_STRLEN: ret = vInt(readStr(a[0]).size(), 64); return true;
      case X_STRCMP: { int r = readStr(a[0]).compare(readStr(a[1])); ret = vInt((uint64_t)(int64_t)(r < 0 ? -1 : r > 0 ? 1 : 0), 32); return true; }
      case X_MEMCMP: { int64_t n = intArg(a[2]); int r = 0; if (n) { Object* x = deref(a[0], n, false, "read"); Object* y = deref(a[1], n, false, "read"); for (int64_t k = 0; k < n && !r; ++k) { int p = getByte(x, a[0].p.off + k), q = getByte(y, a[1].p.off + k); if (p < 0 || q < 0) throw Undecided("memcmp of non-constant data"); r = p - q; } } ret = vInt((uint64_t)(int64_t)r, 32); return true; }
      case X_MEMCHR: { int64_t n = intArg(a[2]); int ch = intArg(a[1]) & 255; ret = vInt(0, 64); if (n) { Object* x = deref(a[0], n, false, "read"); for (int64_t k = 0; k < n; ++k) if (getByte(x, a[0].p.off + k) == ch) { ret = vPtr(a[0].p.obj, a[0].p.off + k); break; } } return true; }
      case X_ONCE: {
        Val p = a[0]; Object* o = deref(p, 4, true, "write"); Key k{p.p.obj, p.p.off}; int b = getByte(o, p.p.off); if (b == -1) throw MemError("uninitialised-once", "one-time flag is uninitialised");
        ret = vInt(0, 32); if (b > 0) { auto it = onceScope.find(k); if (it != onceScope.end()) passed.insert(it->second); return true; }
        reentered(k, "call_once"); enterScope(k, "call_once flag " + objName(o) + "+" + std::to_string(p.p.off)); Val r; bool al = true; bool h2 = false;
        // the callable: the function passed, or for std::call_once the thread-local __once_call
        const Function* cf = a[1].k == K::Ptr && objs[a[1].p.obj]->kind == OK::Fn ? cast<Function>(objs[a[1].p.obj]->site) : nullptr;
        if (!cf) throw Undecided("pthread_once callable"); if (cf->isDeclaration()) { auto* g = M.getGlobalVariable("_ZSt11__once_call"); if (!g) throw Undecided("__once_call missing"); Val fp = loadT(tlsAddr(vPtr(globalObj(g), 0)), PointerType::get(M.getContext(), 0)); if (fp.k != K::Ptr || objs[fp.p.obj]->kind != OK::Fn) throw Undecided("__once_call value"); cf = cast<Function>(objs[fp.p.obj]->site); }
        (void)h2; al = callFunc(cf, {}, r, curLoc()); leaveScope(); if (!al) return false; Cell c; c.v = vInt(2, 32); c.size = 4; splitRange(p.p.obj, p.p.off, 4); putCell(p.p.obj, p.p.off, c); return true; }
      case X_MTXLOCK: { Key k{a[0].k == K::Ptr ? a[0].p.obj : 0, a[0].k == K::Ptr ? a[0].p.off : 0}; if (!(a[0].k == K::Ptr && getByte(objs[a[0].p.obj], a[0].p.off + 16) == 1)) reentered(k, "mutex"); enterScope(k, "mutex"); for (auto u : lockScopes[k]) passed.insert(u); lockScopes[k].push_back(curScope); ret = vInt(0, 32); return true; }
      case X_RDLOCK: { Key k{a[0].k == K::Ptr ? a[0].p.obj : 0, a[0].k == K::Ptr ? a[0].p.off : 0}; for (auto u : lockScopes[k]) passed.insert(u); readHeld.insert(k); ret = vInt(0, 32); return true; }   // sees what writers published, protects no write
      case X_MTXUNLOCK: { if (a[0].k == K::Ptr) { auto r = readHeld.find(Key{a[0].p.obj, a[0].p.off}); if (r != readHeld.end()) { readHeld.erase(r); ret = vInt(0, 32); return true; } } leaveScope(); ret = vInt(0, 32); return true; }
      case X_TLSADDR: ret = tlsAddr(a[0]); return true; case X_EXPECT: case X_RETARG0: ret = a[0]; return true;
      case X_OBJSIZE: ret = vInt(~0ull, 64); return true;
      case X_FSHL: case X_FSHR: { unsigned b = tyBits(F->getReturnType()); uint64_t x = maskBits(intArg(a[0]), b), y = maskBits(intArg(a[1]), b), k = maskBits(intArg(a[2]), b) % b; uint64_t r = k == 0 ? (m == X_FSHL ? x : y) : m == X_FSHL ? (x << k) | (y >> (b - k)) : (x << (b - k)) | (y >> k); ret = vInt(maskBits(r, b), b); return true; }
      case X_CTLZ: { unsigned b = tyBits(F->getReturnType()); int64_t v = intArg(a[0]); uint64_t u = maskBits(v, b); unsigned n = 0; for (int k = b - 1; k >= 0 && !((u >> k) & 1); --k) ++n; ret = vInt(n, b); return true; }
      case X_CTTZ: { unsigned b = tyBits(F->getReturnType()); uint64_t u = maskBits(intArg(a[0]), b); unsigned n = 0; while (n < b && !((u >> n) & 1)) ++n; ret = vInt(n, b); return true; }
      case X_CTPOP: { unsigned b = tyBits(F->getReturnType()); ret = vInt(__builtin_popcountll(maskBits(intArg(a[0]), b)), b); return true; }
      case X_OVERFLOW: { unsigned b = tyBits(cast<StructType>(F->getReturnType())->getElementType(0)); StringRef n = F->getName(); unsigned op = n.contains("add") ? Instruction::Add : n.contains("sub") ? Instruction::Sub : Instruction::Mul; Val r = arith(op, a[0], a[1], b, false); bool ov = false; if (a[0].k == K::Int && a[1].k == K::Int) { __int128 x, y; if (n[5] == 'u') { x = a[0].i; y = a[1].i; } else { x = sextBits(a[0].i, b); y = sextBits(a[1].i, b); } __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y; __int128 got = n[5] == 'u' ? (__int128)r.i : (__int128)sextBits(r.i, b); ov = z != got; } ret = vAgg({r, vBool(ov)}); return true; }
      case X_DYNCAST: { Val p = a[0]; if (p.k != K::Ptr) { ret = vInt(0, 64); return true; } Val vt = loadT(p, PointerType::get(M.getContext(), 0)); Val ti = loadT(ptrAdd(vt, -8), PointerType::get(M.getContext(), 0)); ret = typeDerives(ti, a[2]) ? p : vInt(0, 64); return true; }
      // ---- harness vocabulary -------------------------------------------------------------
      case V_REAL: { ret = vSym(rfVar(newVar(readStr(a[0]) + (a.size() > 1 ? std::to_string(intArg(a[1])) : ""), false)), false, 64); return true; }
      case V_INT: { ret = vSym(rfVar(newVar(readStr(a[0]), true)), true, tyBits(F->getReturnType())); return true; }
      case V_ASSUME: { assumeV(a[0]); if (!feasible(pc)) throw Undecided("contradictory assumption in harness at " + harnessLoc()); return true; }
      case V_TRUE: { claimBool(a[0], readStr(a[1]), anyLocOf(a[0]), isTrue(a[0]) ? "" : valStr(simplifyUnder(a[0], pc)), hasSym(a[0])); return true; }
      case V_EQ: claimEq(a[0], a[1], readStr(a[2]), true, tol); return true;
      case V_EQI: case V_EQP: claimEq(a[0], a[1], readStr(a[2]), false, 0); return true;
      case V_LABEL: { std::string k = readStr(a[0]), v = valStr(a[1]); setLabel(k, v); return true; }
      case V_LABELS: { setLabel(readStr(a[0]), readStr(a[1])); return true; }
      case V_DIFF: { Val x = a[1]; if (x.k != K::Sym || !x.rf->den.empty() || x.rf->num->t.size() != 1 || x.rf->num->t[0].m.size() != 1) throw Undecided("v_diff: not a symbol"); uint32_t v = mvar(x.rf->num->t[0].m[0]); ret = apply1(a[0], [&](const Val& y) -> Val { if (y.k == K::Fp) return vFp(0); if (y.k != K::Sym) return y; return vSym(rfDiff(y.rf, v), false, 64); }); ret.loc = a[0].loc; return true; }
      case V_SUBST: { Val x = a[1]; if (x.k != K::Sym) throw Undecided("v_subst: not a symbol"); uint32_t v = mvar(x.rf->num->t[0].m[0]); R w = toRF(a[2]); ret = apply1(a[0], [&](const Val& y) -> Val { if (y.k != K::Sym) return y; return vSym(rfSubst(y.rf, v, w), false, 64); }); ret.loc = a[0].loc; return true; }
      case V_CATCH: { // int v_catch(void(*f)(void*), void* ctx, const char* type)
        const Function* cf = cast<Function>(objs[a[0].p.obj]->site); std::string want = readStr(a[2]); Val pc0 = pc, r; auto stack0 = stack.size(); std::vector<Val> ar{a[1]};
        size_t cb0 = catchBase; catchBase = stack.size(); ++catchDepth; lastThrow = ""; uint32_t sc = curScope; bool al; try { al = callFunc(cf, std::move(ar), r, 0); } catch (...) { --catchDepth; catchBase = cb0; throw; }
        catchBase = cb0;
        --catchDepth; stack.resize(stack0); curScope = sc;
        if (!al) { pc = pc0; bool ok = want.empty() || lastThrow.find(want) != std::string::npos; ret = vInt(ok ? 1 : 2, 32); if (!ok) setLabel("thrown", lastThrow); return true; }
        Val rt = pc; pc = pc0; bool ok2 = want.empty() || lastThrow.find(want) != std::string::npos; ret = rt == pc0 ? vInt(0, 32) : ite(rt, vInt(0, 32), vInt(ok2 ? 1 : 2, 32)); return true; }
      case V_ALLOW: allowThrow = intArg(a[0]); return true;
      case V_PRINT: std::cerr << "[print] " << readStr(a[0]) << " = " << valStr(simplifyUnder(a[1], pc), 6) << "   @" << (anyLocOf(a[1]) ? locNames[anyLocOf(a[1])] : "?") << "\n"; return true;
      case V_WIDEN: widen = intArg(a[0]); return true;
      case V_EXACT: exactFp = intArg(a[0]); return true;
      case V_TOL: tol = ldArg(a[0]); return true;
      case V_ISCONST: ret = vBool(a[0].k == K::Fp || a[0].k == K::Int); return true;
      case V_OPAQUE: {
        std::string k0 = readStr(a[0]);
        std::function<Val(std::vector<Val>, Val)> rec = [&](std::vector<Val> x, Val c) -> Val {
          for (size_t i = 1; i < x.size(); ++i) if (x[i].k == K::Dec) {
            A at = x[i].dec->a; Val cond = vDec(at, vBool(true), vBool(false)), ch = bAnd(c, cond), cl = bAnd(c, bNot(cond)); bool fh = feasible(ch), fl = feasible(cl);
            auto part = [&](bool hi, const Val& cc) { std::vector<Val> y = x; y[i] = hi ? x[i].dec->hi : x[i].dec->lo; for (size_t j = 1; j < y.size(); ++j) if (y[j].k == K::Dec) y[j] = simplifyUnder(y[j], cc); return rec(y, cc); };
            if (fh && fl) return ite(cond, part(true, ch), part(false, cl)); return part(fh, fh ? ch : cl); }
          std::string k = k0; for (size_t i = 1; i < x.size(); ++i) k += x[i].k == K::Sym ? "," + rfStr(x[i].rf).substr(0, 30) + "#" + std::to_string(x[i].rf->id) : "," + valStr(x[i]);
          return opaque(k, false, 64); };
        for (size_t i = 1; i < a.size(); ++i) if (a[i].k == K::Dec) a[i] = simplifyUnder(a[i], pc);
        ret = rec(a, pc); return true; }
      case V_FEAS: ret = vBool(feasible(bAnd(pc, a[0]))); return true;
      case V_RPT: case V_RCHECK: case V_RINSIDE: case V_HPSTR: case V_HPD: case V_HPOP: case V_HPGET: case V_HPPT: case V_HPCHECK: case V_EQHP: return quad(m, a, ret);
      case V_EFF: { int mode = intArg(a[0]); effects = mode != 0; effWarm = mode == 2; if (effWarm) ++thread; if (mode) { effObjStart = objs.size(); passed.clear(); } return true; }
    }
    throw Undecided("model " + F->getName().str());
  }
  void setLabel(const std::string& k, const std::string& v) { for (auto& l : labels) if (l.first == k) { l.second = v; return; } labels.push_back({k, v}); }
  void enterScope(Key k, const std::string& name) { scopes.push_back({curScope, name, k}); curScope = scopes.size() - 1; onceScope[k] = curScope; }
  // each warm phase is another thread with thread-local storage of its own
  Val tlsAddr(const Val& p) {
    if (!thread || p.k != K::Ptr || !objs[p.p.obj]->tls || objs[p.p.obj]->clone) return p;
    auto it = tlsObj.find({p.p.obj, (int64_t)thread}); if (it != tlsObj.end()) return vPtr(it->second, p.p.off);
    const Object* o = objs[p.p.obj]; auto* gv = cast<GlobalVariable>(o->site); uint32_t id = newObj(o->kind, o->size); Object* n = objs[id]; n->site = o->site; n->tls = n->clone = true; n->constant = o->constant;
    if (gv->hasInitializer()) initConst(n, 0, gv->getInitializer());
    tlsObj[{p.p.obj, (int64_t)thread}] = id; return vPtr(id, p.p.off);
  }
  void reentered(Key k, const char* what) { for (uint32_t c = curScope; c; c = scopes[c].parent) if (!(scopes[c].flag < k) && !(k < scopes[c].flag)) violation("deadlock", std::string(what) + " entered again while it is in progress", curLoc()); }
  void leaveScope() { if (curScope) { passed.insert(curScope); curScope = scopes[curScope].parent; } }
#include "quad.inc"
