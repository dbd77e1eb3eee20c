// Library and intrinsic models, and the harness API.  Included by symx.cpp.
static std::map<std::string, std::string> values;
static void loadValues(const std::string& f) {
  FILE* p = fopen(f.c_str(), "r");
  if (!p) fatal("cannot read %s", f.c_str());
  char n[512], v[512];
  while (fscanf(p, "%511s %511s", n, v) == 2) values[n] = v;
  fclose(p);
}
static std::unordered_map<u64, int> guards;
static void resetBuiltins() { guards.clear(); }
static bool overrideBody(const std::string&) { return false; }

static std::string occName(const std::string& n) { return n + "#" + std::to_string(occ[n]++); }
static double concF(const std::string& nm) {
  auto it = values.find(nm);
  if (it == values.end()) return 0;
  if (it->second.rfind("0x", 0) == 0 && it->second.find('p') == std::string::npos) {
    u64 b = strtoull(it->second.c_str(), 0, 16);
    double d;
    memcpy(&d, &b, 8);
    return d;
  }
  return strtod(it->second.c_str(), 0);
}
static u64 concI(const std::string& nm) {
  auto it = values.find(nm);
  if (it == values.end()) return 0;
  if (it->second == "true") return 1;
  if (it->second == "false") return 0;
  if (it->second[0] == '-') return strtoll(it->second.c_str(), 0, 10);
  return strtoull(it->second.c_str(), 0, 0);
}
static E freshInput(const std::string& base, Sort s) {
  std::string nm = occName(base);
  if (optConcrete) {
    if (s.fp()) return X.cF(s, concF(nm));
    return X.cst(s, concI(nm));
  }
  E e = X.sym(nm, s);
  inputs.push_back({nm, e, s.fp() ? 0 : s.k == S_BOOL ? 2 : 1, 0, 0});
  return e;
}
static u64 heapAlloc(u64 n, const char* w) {
  if (n > (1ull << 26)) crash("huge-allocation");
  return newObj(n, K_HEAP, w)->base;
}
static void heapFree(u64 a, const char* w) {
  if (!a) return;
  Obj* o = findObj(a);
  if (!o || o->base != a || o->kind != K_HEAP) crash("invalid-free");
  if (o->freed) crash("double-free");
  if (o->what != w) crash("mismatched-free");
  o->freed = true;
  o->d.clear(); o->d.shrink_to_fit();
  o->s.clear(); o->s.shrink_to_fit();
}

static void execBuiltin(const std::string& n, CInst& c, bool& transferred) {
  auto A = [&](int i) { return get(c.ops[i]); };
  auto U = [&](int i) { return concretize(get(c.ops[i])); };
  auto R64 = [&](u64 v) { put(c, X.cst(sBV(64), v)); };
  auto R32 = [&](u64 v) { if (c.ndst) put(c, X.cst(sBV(32), v)); };
  auto starts = [&](const char* p) { return n.rfind(p, 0) == 0; };
  auto map1 = [&](Op o) { for (int k = 0; k < c.ndst; k++) put(c, X.mkF1(o, get(c.ops[0], k)), k); };
  auto map2 = [&](Op o) { for (int k = 0; k < c.ndst; k++) put(c, X.mkF2(o, get(c.ops[0], k), get(c.ops[1], k)), k); };

  // ---- harness API ----
  if (starts("sym_")) {
    if (n == "sym_f64") return put(c, freshInput(cstr(U(0)), sF64()));
    if (n == "sym_f32") return put(c, freshInput(cstr(U(0)), sF32()));
    if (n == "sym_u64" || n == "sym_i64") return put(c, freshInput(cstr(U(0)), sBV(64)));
    if (n == "sym_u32" || n == "sym_i32") return put(c, freshInput(cstr(U(0)), sBV(32)));
    if (n == "sym_u8") return put(c, freshInput(cstr(U(0)), sBV(8)));
    if (n == "sym_bool") return put(c, freshInput(cstr(U(0)), sBool()));
    if (n == "sym_angle") {
      E e = freshInput(cstr(U(0)), sF64());
      if (!optConcrete && X.realLike()) {
        inputs.back().kind = 3;
        inputs.back().s = X.mkF1(O_SIN, e);
        inputs.back().c = X.mkF1(O_COS, e);
      }
      return put(c, e);
    }
    if (n == "sym_choice") {
      std::string nm = occName(cstr(U(0)));
      u64 lo = U(1), hi = U(2), v;
      if (optConcrete) v = concI(nm);
      else v = choose(lo, hi);
      choices.push_back({nm, std::to_string(v)});
      return R64(v);
    }
    if (n == "sym_assume") {
      E e = A(0);
      if (X.isC(e)) { if (!X.cv(e)) throw PathEnd{1}; return; }
      if (known.count(e)) return;
      if (optConcrete) fatal("symbolic assume in concrete mode");
      Res r = feasible(e);
      if (r == R_UNSAT) throw PathEnd{1};
      assertKnown(e, true);
      return;
    }
    if (n == "sym_check") { obligation("check", cstr(U(1)), A(0), true); return; }
    if (n == "sym_check_nopool") { obligation("check", cstr(U(1)), A(0), false); return; }
    if (n == "sym_pool") {
      E e = A(0);
      if (X.isC(e)) { if (!X.cv(e)) { if (getenv("SYMX_DEBUG")) fprintf(stderr, "pool false\n"); throw PathEnd{1}; } return; }
      // split conjunctions
      std::vector<E> st{e};
      while (!st.empty()) {
        E x = st.back();
        st.pop_back();
        if (X.n[x].op == O_AND) { st.push_back(X.n[x].b); st.push_back(X.n[x].a); }
        else if (std::find(pool.begin(), pool.end(), x) == pool.end()) pool.push_back(x);
      }
      return;
    }
    if (n == "sym_pool_clear") { pool.clear(); return; }
    if (n == "sym_hint") { E e = A(0); if (!X.isC(e)) hints.push_back(e); return; }
    if (n == "sym_reach") { reach(cstr(U(0))); return; }
    if (n == "sym_end") throw PathEnd{0};
    if (n == "sym_and") return put(c, X.mkAnd(A(0), A(1)));
    if (n == "sym_or") return put(c, X.mkOr(A(0), A(1)));
    if (n == "sym_not") return put(c, X.mkNot(A(0)));
    if (n == "sym_ite_f64") return put(c, X.mkIte(A(0), A(1), A(2)));
    if (n == "sym_ite_u64") return put(c, X.mkIte(A(0), A(1), A(2)));
    if (n == "sym_same_f64") return put(c, X.mkFsame(A(0), A(1)));
    if (n == "sym_identical_f64") return put(c, A(0) == A(1) ? X.tru() : X.fls());
    if (n == "sym_finite_f64") {
      E a = A(0);
      if (X.isC(a)) return put(c, std::isfinite(X.cd(a)) ? X.tru() : X.fls());
      return put(c, X.realLike() ? X.tru() : X.raw(O_FINITE, sBool(), a));
    }
    if (n == "sym_thread") { curThread = U(0); return; }
    if (n == "sym_is_symbolic") return put(c, optConcrete ? X.fls() : X.tru());
    if (n == "sym_margin") return put(c, X.cF(sF64(), optConcrete ? 0.5e-6 : 1e-6));
    if (n == "sym_is_const_f64") return put(c, X.isC(A(0)) ? X.tru() : X.fls());
    if (n == "sym_trace_f64") {
      if (optConcrete) { E e = A(1); u64 b; double d = X.cd(e); memcpy(&b, &d, 8); printf("TRACE %s %016llx\n", cstr(U(0)).c_str(), (unsigned long long)b); }
      return;
    }
    if (n == "sym_trace_u64") {
      if (optConcrete) printf("TRACE %s %016llx\n", cstr(U(0)).c_str(), (unsigned long long)U(1));
      return;
    }
    if (n == "sym_debug_f64") {
      if (optVerbose) { E e = A(1); fprintf(stderr, "DEBUG %s node=%u const=%d %g op=%d\n", cstr(U(0)).c_str(), e, X.isC(e), X.isC(e) ? X.cd(e) : 0, X.n[e].op); }
      return;
    }
    fatal("unknown harness function %s", n.c_str());
  }

  // ---- LLVM intrinsics ----
  if (starts("llvm.")) {
    if (starts("llvm.memcpy.") || starts("llvm.memmove.")) { u64 d = U(0), s = U(1), k = U(2); copyMem(d, s, k); return; }
    if (starts("llvm.memset.")) {
      u64 d = U(0), k = U(2);
      E v = A(1);
      if (k == 0) return;
      access(d, k, true);
      for (u64 i = 0; i < k; i++) storeScalar(d + i, v);
      return;
    }
    if (starts("llvm.fabs.")) return map1(O_FABS);
    if (starts("llvm.sqrt.")) return map1(O_FSQRT);
    if (starts("llvm.floor.")) return map1(O_FFLOOR);
    if (starts("llvm.ceil.")) return map1(O_FCEIL);
    if (starts("llvm.trunc.")) return map1(O_FTRUNC);
    if (starts("llvm.rint.") || starts("llvm.nearbyint.") || starts("llvm.roundeven.")) return map1(O_FRINT);
    if (starts("llvm.round.")) return map1(O_FROUND);
    if (starts("llvm.sin.")) return map1(O_SIN);
    if (starts("llvm.cos.")) return map1(O_COS);
    if (starts("llvm.minnum.") || starts("llvm.minimum.")) return map2(O_FMIN);
    if (starts("llvm.maxnum.") || starts("llvm.maximum.")) return map2(O_FMAX);
    if (starts("llvm.copysign.")) return map2(O_COPYSIGN);
    if (starts("llvm.fma.") || starts("llvm.fmuladd.")) {
      for (int k = 0; k < c.ndst; k++) put(c, X.mkF2(O_FADD, X.mkF2(O_FMUL, get(c.ops[0], k), get(c.ops[1], k)), get(c.ops[2], k)), k);
      return;
    }
    if (starts("llvm.pow.") || starts("llvm.powi.")) {
      E a = A(0), b = A(1);
      if (X.isC(b)) {
        double e = X.n[b].s.fp() ? X.cd(b) : (double)ExprDB::sx(X.cv(b), X.n[b].s.w);
        if (X.isC(a)) return put(c, X.cF(X.n[a].s, std::pow(X.cd(a), e)));
        if (e == 2) return put(c, X.mkF2(O_FMUL, a, a));
        if (e == 1) return put(c, a);
        if (e == 0.5) return put(c, X.mkF1(O_FSQRT, a));
      }
      return put(c, X.raw(O_UF2, X.n[a].s, a, b, 0, X.name("pow")));
    }
    if (starts("llvm.umin.") || starts("llvm.umax.") || starts("llvm.smin.") || starts("llvm.smax.")) {
      bool sg = n[5] == 's', mn = n[6] == 'm' && n[7] == 'i';
      E a = A(0), b = A(1);
      E lt = X.mkCmp(sg ? O_SLT : O_ULT, a, b);
      return put(c, mn ? X.mkIte(lt, a, b) : X.mkIte(lt, b, a));
    }
    if (starts("llvm.abs.")) { E a = A(0); return put(c, X.mkIte(X.mkCmp(O_SLT, a, X.cst(X.n[a].s, 0)), X.mkBV(O_SUB, X.cst(X.n[a].s, 0), a), a)); }
    if (starts("llvm.expect.")) return put(c, A(0));
    if (starts("llvm.is.constant.")) return put(c, X.fls());
    if (starts("llvm.objectsize.")) return put(c, X.cst(c.ty->s[0], ~0ull));
    if (starts("llvm.trap") || starts("llvm.ubsantrap")) crash("trap");
    if (starts("llvm.eh.typeid.for")) return R32(selOf(U(0)));
    if (starts("llvm.stacksave")) return R64(0);
    if (starts("llvm.stackrestore")) return;
    if (starts("llvm.prefetch")) return;
    if (starts("llvm.threadlocal.address")) return R64(threadLocal(U(0)));
    if (starts("llvm.launder.invariant") || starts("llvm.strip.invariant")) return put(c, A(0));
    if (starts("llvm.ptrmask")) return put(c, X.mkBV(O_BAND, A(0), A(1)));
    auto ovf = [&](bool sg, Op o) {
      E a = A(0), b = A(1);
      int w = X.n[a].s.w;
      E r = X.mkBV(o, a, b), of;
      E z = X.cst(sBV(w), 0);
      if (!sg) {
        if (o == O_ADD) of = X.mkCmp(O_ULT, r, a);
        else if (o == O_SUB) of = X.mkCmp(O_ULT, a, b);
        else {
          if (X.isC(a) && X.isC(b)) of = X.cst(sBool(), (u64)(((u128)X.cv(a) * X.cv(b)) >> w) != 0);
          else {
            E ea = X.mkExt(O_ZEXT, a, 2 * w), eb = X.mkExt(O_ZEXT, b, 2 * w);
            of = X.mkNot(X.mkEq(X.mkExtract(X.mkBV(O_MUL, ea, eb), 2 * w - 1, w), z));
          }
        }
      } else {
        if (o == O_ADD) of = X.mkAnd(X.mkEq(X.mkCmp(O_SLT, a, z), X.mkCmp(O_SLT, b, z)), X.mkNot(X.mkEq(X.mkCmp(O_SLT, r, z), X.mkCmp(O_SLT, a, z))));
        else if (o == O_SUB) of = X.mkAnd(X.mkNot(X.mkEq(X.mkCmp(O_SLT, a, z), X.mkCmp(O_SLT, b, z))), X.mkNot(X.mkEq(X.mkCmp(O_SLT, r, z), X.mkCmp(O_SLT, a, z))));
        else {
          if (X.isC(a) && X.isC(b)) {
            __int128 p = (__int128)ExprDB::sx(X.cv(a), w) * ExprDB::sx(X.cv(b), w);
            of = X.cst(sBool(), p != (__int128)ExprDB::sx((u64)p, w));
          } else {
            E ea = X.mkExt(O_SEXT, a, 2 * w), eb = X.mkExt(O_SEXT, b, 2 * w);
            E p = X.mkBV(O_MUL, ea, eb);
            of = X.mkNot(X.mkEq(p, X.mkExt(O_SEXT, X.mkExtract(p, w - 1, 0), 2 * w)));
          }
        }
      }
      put(c, r, 0);
      put(c, of, 1);
    };
    if (starts("llvm.uadd.with.overflow")) return ovf(false, O_ADD);
    if (starts("llvm.usub.with.overflow")) return ovf(false, O_SUB);
    if (starts("llvm.umul.with.overflow")) return ovf(false, O_MUL);
    if (starts("llvm.sadd.with.overflow")) return ovf(true, O_ADD);
    if (starts("llvm.ssub.with.overflow")) return ovf(true, O_SUB);
    if (starts("llvm.smul.with.overflow")) return ovf(true, O_MUL);
    if (starts("llvm.usub.sat")) { E a = A(0), b = A(1); return put(c, X.mkIte(X.mkCmp(O_ULT, a, b), X.cst(X.n[a].s, 0), X.mkBV(O_SUB, a, b))); }
    if (starts("llvm.uadd.sat")) { E a = A(0), b = A(1); E r = X.mkBV(O_ADD, a, b); return put(c, X.mkIte(X.mkCmp(O_ULT, r, a), X.cst(X.n[a].s, ~0ull), r)); }
    if (starts("llvm.fshl.") || starts("llvm.fshr.")) {
      E a = A(0), b = A(1), s = A(2);
      int w = X.n[a].s.w;
      if (!X.isC(s)) fatal("symbolic funnel shift");
      int k = X.cv(s) % w;
      bool left = n[8] == 'l';
      if (k == 0) return put(c, left ? a : b);
      if (!left) k = w - k;
      return put(c, X.mkBV(O_BOR, X.mkBV(O_SHL, a, X.cst(sBV(w), k)), X.mkBV(O_LSHR, b, X.cst(sBV(w), w - k))));
    }
    if (starts("llvm.ctlz.") || starts("llvm.cttz.") || starts("llvm.ctpop.") || starts("llvm.bswap.")) {
      E a = A(0);
      int w = X.n[a].s.w;
      u64 v = concretize(a);
      if (starts("llvm.ctpop.")) return put(c, X.cst(sBV(w), __builtin_popcountll(v)));
      if (starts("llvm.ctlz.")) return put(c, X.cst(sBV(w), v ? __builtin_clzll(v) - (64 - w) : w));
      if (starts("llvm.cttz.")) return put(c, X.cst(sBV(w), v ? __builtin_ctzll(v) : w));
      return put(c, X.cst(sBV(w), __builtin_bswap64(v) >> (64 - w)));
    }
    if (starts("llvm.is.fpclass.")) {
      E a = A(0);
      u64 m = X.cv(A(1));
      if (X.isC(a)) {
        double d = X.cd(a);
        int cls = std::fpclassify(d);
        bool ng = std::signbit(d);
        u64 bit = cls == FP_NAN ? 3 : cls == FP_INFINITE ? (ng ? 4 : 0x200) : cls == FP_NORMAL ? (ng ? 8 : 0x100) : cls == FP_SUBNORMAL ? (ng ? 0x10 : 0x80) : (ng ? 0x20 : 0x40);
        return put(c, (m & bit) ? X.tru() : X.fls());
      }
      if (X.realLike()) {
        E z = X.cF(X.n[a].s, 0);
        E r = X.fls();
        if (m & 0x60) r = X.mkOr(r, X.mkFcmp(O_FEQ, a, z));
        if (m & 0x180) r = X.mkOr(r, X.mkFcmp(O_FLT, z, a));
        if (m & 0x18) r = X.mkOr(r, X.mkFcmp(O_FLT, a, z));
        return put(c, r);
      }
      E nan = X.mkFcmp(O_FUNO, a, a), fin = X.raw(O_FINITE, sBool(), a), inf = X.mkAnd(X.mkNot(nan), X.mkNot(fin));
      if (m == 3) return put(c, nan);
      if (m == 0x204) return put(c, inf);
      if (m == 0x207) return put(c, X.mkNot(fin));
      if (m == 0x1f8) return put(c, fin);
      fatal("is.fpclass mask %llx", (unsigned long long)m);
    }
    if (starts("llvm.vector.reduce.fadd")) {
      E r = A(0);
      for (int k = 0; k < c.ops[1].n; k++) r = X.mkF2(O_FADD, r, get(c.ops[1], k));
      return put(c, r);
    }
    if (starts("llvm.fptosi.sat") || starts("llvm.fptoui.sat")) return put(c, X.mkFToI(starts("llvm.fptosi") ? O_FPTOSI : O_FPTOUI, A(0), c.ty->s[0].w));
    fatal("unknown intrinsic %s", n.c_str());
  }

  // ---- memory ----
  if (n == "_Znwm" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t") return R64(heapAlloc(U(0), "new"));
  if (n == "_Znam" || n == "_ZnamRKSt9nothrow_t") return R64(heapAlloc(U(0), "new[]"));
  if (starts("_ZdlPv")) return heapFree(U(0), "new");
  if (starts("_ZdaPv")) return heapFree(U(0), "new[]");
  if (n == "malloc") return R64(heapAlloc(U(0), "malloc"));
  if (n == "calloc") { u64 a = heapAlloc(U(0) * U(1), "malloc"); Obj* o = findObj(a); std::fill(o->d.begin(), o->d.end(), 0); return R64(a); }
  if (n == "free") return heapFree(U(0), "malloc");
  if (n == "memcpy" || n == "memmove") { u64 d = U(0); copyMem(d, U(1), U(2)); return R64(d); }
  if (n == "memset") {
    u64 d = U(0), k = U(2);
    E v = X.mkExtract(A(1), 7, 0);
    for (u64 i = 0; i < k; i++) storeScalar(d + i, v);
    return R64(d);
  }
  if (n == "memcmp" || n == "bcmp") {
    u64 a = U(0), b = U(1), k = U(2);
    for (u64 i = 0; i < k; i++) {
      E x = loadScalar(a + i, sBV(8)), y = loadScalar(b + i, sBV(8));
      if (decide(X.mkEq(x, y))) continue;
      return R32(decide(X.mkCmp(O_ULT, x, y)) ? (u64)-1 : 1);
    }
    return R32(0);
  }
  if (n == "strlen") {
    u64 a = U(0), k = 0;
    for (;; k++) if (decide(X.mkEq(loadScalar(a + k, sBV(8)), X.cst(sBV(8), 0)))) break;
    return R64(k);
  }
  if (n == "strcmp") {
    u64 a = U(0), b = U(1);
    for (u64 i = 0;; i++) {
      E x = loadScalar(a + i, sBV(8)), y = loadScalar(b + i, sBV(8));
      if (!decide(X.mkEq(x, y))) return R32(decide(X.mkCmp(O_ULT, x, y)) ? (u64)-1 : 1);
      if (decide(X.mkEq(x, X.cst(sBV(8), 0)))) return R32(0);
    }
  }
  if (n == "memchr") {
    u64 a = U(0), k = U(2);
    E v = X.mkExtract(A(1), 7, 0);
    for (u64 i = 0; i < k; i++) if (decide(X.mkEq(loadScalar(a + i, sBV(8)), v))) return R64(a + i);
    return R64(0);
  }

  // ---- C++ runtime ----
  if (n == "__cxa_allocate_exception") { Obj* o = newObj(U(0), K_HEAP, "exception"); return R64(o->base); }
  if (n == "__cxa_free_exception") return heapFree(U(0), "exception");
  if (n == "__cxa_throw") {
    u64 e = U(0);
    excs[e] = Exc{e, U(1), U(2), 0, 0};
    transferred = true;
    return unwind(e, false);
  }
  if (n == "__cxa_begin_catch") {
    u64 e = U(0);
    auto it = excs.find(e);
    if (it == excs.end()) fatal("begin_catch of unknown exception");
    it->second.handlers++;
    caught.push_back(e);
    return R64(e);
  }
  if (n == "__cxa_get_exception_ptr") return R64(U(0));
  if (n == "__cxa_end_catch") {
    if (caught.empty()) fatal("end_catch");
    u64 e = caught.back();
    caught.pop_back();
    Exc& x = excs[e];
    if (--x.handlers == 0 && !(x.refs & 1)) {
      if (x.dtor) {
        LLVMValueRef f = fnAt.count(x.dtor) ? fnAt[x.dtor] : nullptr;
        if (f && !LLVMIsDeclaration(f)) {
          pushFrame(compileFn(f), {X.cst(sBV(64), e)}, &c);
          transferred = true;
        }
      }
    }
    if (x.handlers == 0) x.refs &= ~1;
    return;
  }
  if (n == "__cxa_rethrow") {
    if (caught.empty()) crash("rethrow-without-exception");
    u64 e = caught.back();
    excs[e].refs |= 1;  // being rethrown: the next end_catch must not destroy it
    transferred = true;
    return unwind(e, false);
  }
  if (n == "__cxa_guard_acquire") {
    u64 g = U(0);
    if (guards[g] == 1) return R32(0);
    if (guards[g] == 2) crash("recursive-static-init");
    guards[g] = 2;
    return R32(1);
  }
  if (n == "__cxa_guard_release") { u64 g = U(0); guards[g] = 1; storeScalar(g, X.cst(sBV(8), 1)); return; }
  if (n == "__cxa_guard_abort") { guards[U(0)] = 0; return; }
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") return R32(0);
  if (n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual" || n == "exit" || n == "_exit") crash(n == "_ZSt9terminatev" ? "terminate" : n);
  if (n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") crash("assert");
  if (n == "_ZSt18uncaught_exceptionv") return put(c, X.fls());
  if (n == "_ZSt19uncaught_exceptionsv") return R32(0);
  if (n == "__errno_location") { static const char* k = "errno"; (void)k; Obj* o = newObj(16, K_GLOBAL, "errno"); return R64(o->base); }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs" || n == "fwrite" || n == "fflush" || n == "fputc") { if (c.ndst) put(c, X.cst(c.ty->s[0], 0)); return; }
  if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "sched_yield") return R32(0);

  // ---- math ----
  if (n == "sin") return map1(O_SIN);
  if (n == "cos") return map1(O_COS);
  if (n == "sqrt") return map1(O_FSQRT);
  if (n == "fabs") return map1(O_FABS);
  if (n == "trunc") return map1(O_FTRUNC);
  if (n == "floor") return map1(O_FFLOOR);
  if (n == "ceil") return map1(O_FCEIL);
  if (n == "round") return map1(O_FROUND);
  if (n == "rint" || n == "nearbyint") return map1(O_FRINT);
  if (n == "fmod") return map2(O_FREM);
  if (n == "fmin") return map2(O_FMIN);
  if (n == "fmax") return map2(O_FMAX);
  if (n == "copysign") return map2(O_COPYSIGN);
  if (n == "atan2") return map2(O_ATAN2);
  if (n == "hypot") return map2(O_HYPOT);
  if (n == "fma") return put(c, X.mkF2(O_FADD, X.mkF2(O_FMUL, A(0), A(1)), A(2)));
  if (n == "remainder") {
    E a = A(0), b = A(1);
    if (X.isC(a) && X.isC(b)) return put(c, X.cF(sF64(), std::remainder(X.cd(a), X.cd(b))));
    if (X.mode == M_FP) return put(c, X.raw(O_UF2, sF64(), a, b, 0, X.name("remainder")));
    return put(c, X.mkF2(O_FSUB, a, X.mkF2(O_FMUL, b, X.mkF1(O_FRINT, X.mkF2(O_FDIV, a, b)))));
  }
  if (n == "pow") {
    E a = A(0), b = A(1);
    if (X.isC(a) && X.isC(b)) return put(c, X.cF(sF64(), std::pow(X.cd(a), X.cd(b))));
    if (X.isC(b) && X.cd(b) == 2) return put(c, X.mkF2(O_FMUL, a, a));
    if (X.isC(b) && X.cd(b) == 1) return put(c, a);
    if (X.isC(b) && X.cd(b) == 0.5) return put(c, X.mkF1(O_FSQRT, a));
    return put(c, X.raw(O_UF2, sF64(), a, b, 0, X.name("pow")));
  }
  if (n == "sincos") {
    E a = A(0);
    storeScalar(U(1), X.mkF1(O_SIN, a));
    storeScalar(U(2), X.mkF1(O_COS, a));
    return;
  }
  if (n == "tan") { E a = A(0); return put(c, X.isC(a) ? X.cF(sF64(), std::tan(X.cd(a))) : X.mkF2(O_FDIV, X.mkF1(O_SIN, a), X.mkF1(O_COS, a))); }
  if (n == "exp" || n == "log" || n == "acos" || n == "asin" || n == "atan" || n == "log2" || n == "log10" || n == "exp2" || n == "cbrt" || n == "sinh" || n == "cosh" || n == "tanh") {
    E a = A(0);
    if (X.isC(a)) {
      double d = X.cd(a);
      double r = n == "exp" ? std::exp(d) : n == "log" ? std::log(d) : n == "acos" ? std::acos(d) : n == "asin" ? std::asin(d) : n == "atan" ? std::atan(d) : n == "log2" ? std::log2(d) : n == "log10" ? std::log10(d) : n == "exp2" ? std::exp2(d) : n == "cbrt" ? std::cbrt(d) : n == "sinh" ? std::sinh(d) : n == "cosh" ? std::cosh(d) : std::tanh(d);
      return put(c, X.cF(sF64(), r));
    }
    return put(c, X.raw(O_UF1, sF64(), a, 0, 0, X.name(n)));
  }
  fatal("call of undefined function %s", n.c_str());
}
