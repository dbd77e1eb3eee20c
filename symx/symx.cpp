// symx: path-wise symbolic executor for LLVM IR (bitcode from clang), deciding
// assertions with an SMT solver.  See DESIGN.md.
#include <llvm-c/BitReader.h>
#include <llvm-c/Core.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <functional>
#include <memory>
#include "expr.hpp"
#include "smt.hpp"

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
[[noreturn]] static void fatal(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "symx: fatal: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  fflush(stdout);
  _exit(3);
}

static ExprDB X;
static Smt smt(X);

// ---------------------------------------------------------------- options
static std::string optOut = ".", optEntry = "sym_main", optZ3 = "z3-new", optValues;
static int optBranchMs = 400, optStageMs = 400, optCrashMs = 3000;
static u64 optMaxInstr = 40000000, optMaxPaths = 20000;
static double optMaxTime = 600, optObMax = 1e9, optDeadline = 1e300;
static bool optVerbose = false, optConcrete = false;

// ---------------------------------------------------------------- solver pipe
struct Solver {
  int in = -1, out = -1;
  pid_t pid = -1;
  std::string buf;
  std::vector<char> emitted;              // node definitions sent
  std::set<E> trigEmitted;
  std::unordered_map<E, std::vector<std::string>> axOf;      // axioms of node
  std::unordered_map<E, std::vector<std::string>> trigAxOf;  // axioms of trig argument
  u64 queries = 0, unknowns = 0;
  double time = 0;
  void start() {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) fatal("pipe");
    pid = fork();
    if (pid == 0) {
      dup2(a[0], 0);
      dup2(b[1], 1);
      dup2(b[1], 2);
      close(a[0]); close(a[1]); close(b[0]); close(b[1]);
      execlp(optZ3.c_str(), optZ3.c_str(), "-in", "-memory:6000", (char*)0);
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    in = a[1];
    out = b[0];
    emitted.clear();
    trigEmitted.clear();
    buf.clear();
    send("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :pp.decimal false)\n(set-option :smt.random_seed 7)\n");
    send(smt.prelude());
  }
  void stop() {
    if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, 0, 0); close(in); close(out); }
    pid = -1;
  }
  std::string pend;
  void send(const std::string& s) { pend += s; }
  void flushOut() {
    size_t o = 0;
    while (o < pend.size()) {
      ssize_t r = write(in, pend.data() + o, pend.size() - o);
      if (r <= 0) fatal("solver pipe closed");
      o += r;
    }
    pend.clear();
  }
  bool readLine(std::string& l, double tmo) {
    double end = now() + tmo;
    for (;;) {
      size_t p = buf.find('\n');
      if (p != std::string::npos) { l = buf.substr(0, p); buf.erase(0, p + 1); return true; }
      double left = end - now();
      if (left <= 0) return false;
      struct pollfd pf{out, POLLIN, 0};
      int r = poll(&pf, 1, (int)(left * 1000) + 1);
      if (r <= 0) return false;
      char tmp[65536];
      ssize_t k = read(out, tmp, sizeof tmp);
      if (k <= 0) return false;
      buf.append(tmp, k);
    }
  }
  // Emit definitions for the cone of e.
  void defCone(E e) {
    if (emitted.size() < X.n.size()) emitted.resize(X.n.size() + 1024, 0);
    std::vector<std::pair<E, int>> st{{e, 0}};
    while (!st.empty()) {
      auto [x, ph] = st.back();
      st.pop_back();
      if (!x || X.isC(x)) continue;
      if (ph == 0) {
        if (emitted[x]) continue;
        st.push_back({x, 1});
        E k[3];
        int c;
        smt.kids(x, k, c);
        for (int i = 0; i < c; i++) st.push_back({k[i], 0});
      } else {
        if (emitted[x]) continue;
        emitted[x] = 1;
        std::string d;
        std::vector<std::string> ax;
        if (smt.isTrig(x)) {
          E a = X.n[x].a;
          if (trigEmitted.insert(a).second) {
            smt.trigDecl(a, d, ax);
            if (!ax.empty()) trigAxOf[a] = ax;
            send(d);
          }
        } else {
          smt.def(x, d, ax);
          send(d);
          if (!ax.empty()) axOf[x] = ax;
        }
      }
    }
  }
};
static Solver Z;

// mark-based traversal
static std::vector<u32> visitMark;
static u32 visitEpoch = 0;
static void forCone(const std::vector<E>& roots, const std::function<void(E)>& f) {
  if (visitMark.size() < X.n.size()) visitMark.resize(X.n.size() + 4096, 0);
  visitEpoch++;
  std::vector<E> st(roots);
  while (!st.empty()) {
    E x = st.back();
    st.pop_back();
    if (!x || X.isC(x) || visitMark[x] == visitEpoch) continue;
    visitMark[x] = visitEpoch;
    f(x);
    E k[3];
    int c;
    smt.kids(x, k, c);
    for (int i = 0; i < c; i++) st.push_back(k[i]);
  }
}
static std::unordered_map<E, std::vector<u32>> suppCache;
static const std::vector<u32>& support(E e) {
  auto it = suppCache.find(e);
  if (it != suppCache.end()) return it->second;
  std::vector<u32> s;
  forCone({e}, [&](E x) { if (X.n[x].op == O_SYM) s.push_back(X.n[x].k); });
  std::sort(s.begin(), s.end());
  s.erase(std::unique(s.begin(), s.end()), s.end());
  return suppCache[e] = s;
}
static bool meets(const std::vector<u32>& a, const std::vector<u32>& b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if (a[i] == b[j]) return true;
    if (a[i] < b[j]) i++; else j++;
  }
  return false;
}

// trig congruence lemmas for a set of arguments
static std::unordered_map<E, bool> angleMemo;
static bool mentionsAngle(E e) {
  auto it = angleMemo.find(e);
  if (it != angleMemo.end()) return it->second;
  bool r = X.n[e].op == O_ATAN2;
  E k[3];
  int c;
  smt.kids(e, k, c);
  for (int i = 0; i < c && !r; i++) r = mentionsAngle(k[i]);
  return angleMemo[e] = r;
}
static std::vector<std::string> trigPairs(const std::vector<E>& args) {
  std::vector<std::string> r;
  if (args.size() > 30) return r;
  for (size_t i = 0; i < args.size(); i++)
    for (size_t j = i + 1; j < args.size(); j++) {
      E a = args[i], b = args[j];
      if (!meets(support(a), support(b))) continue;
      r.push_back("(=> (= " + smt.ref(a) + " " + smt.ref(b) + ") (and (= " + Smt::nS(a) + " " + Smt::nS(b) + ") (= " + Smt::nC(a) + " " + Smt::nC(b) + ")))");
      // whole turns apart (within 1e-9): same sine and cosine within that
      if (mentionsAngle(a) || mentionsAngle(b)) {
        static const char* turn[5] = {"(- 12.566370614359172)", "(- 6.283185307179586)", "0.0", "6.283185307179586", "12.566370614359172"};
        std::string sa = Smt::nS(a), sb = Smt::nS(b), ca = Smt::nC(a), cb = Smt::nC(b), e = " 0.000000001)", e2 = " 0.000000002)";
        for (auto t : turn) {
          std::string d = "(- (- " + smt.ref(a) + " " + smt.ref(b) + ") " + t + ")";
          r.push_back("(=> (and (<= " + d + e + " (<= (- " + d + ")" + e + ") (and (<= (- " + sa + " " + sb + ")" + e2 + " (<= (- " + sb + " " + sa + ")" + e2 + " (<= (- " + ca + " " + cb + ")" + e2 + " (<= (- " + cb + " " + ca + ")" + e2 + "))");
        }
      }
      // equal sine and cosine: equal up to whole turns (for angles of a few turns)
      if (X.n[a].op == O_ATAN2 || X.n[b].op == O_ATAN2) {
        std::string d = "(- " + smt.ref(a) + " " + smt.ref(b) + ")", alt;
        static const char *lo[3] = {"0.0", "6.283185307179586", "12.566370614359172"}, *hi[3] = {"0.0", "6.283185307179587", "12.566370614359174"};
        for (int k = 0; k < 3; k++) {
          alt += std::string(" (and (<= ") + lo[k] + " " + d + ") (<= " + d + " " + hi[k] + "))";
          if (k) alt += std::string(" (and (<= (- ") + hi[k] + ") " + d + ") (<= " + d + " (- " + lo[k] + ")))";
        }
        r.push_back("(=> (and (= " + Smt::nS(a) + " " + Smt::nS(b) + ") (= " + Smt::nC(a) + " " + Smt::nC(b) + ") (<= " + d + " 12.56637061435917) (<= (- " + d + ") 12.56637061435917)) (or" + alt + "))");
      }
    }
  return r;
}

enum Res { R_SAT, R_UNSAT, R_UNK };
struct ConeInfo { std::vector<E> nodes; std::vector<E> trigArgs; };
static ConeInfo coneOf(const std::vector<E>& as) {
  ConeInfo ci;
  std::set<E> ta;
  forCone(as, [&](E x) {
    ci.nodes.push_back(x);
    if (smt.isTrig(x)) ta.insert(X.n[x].a);
    else if (X.mode != M_FP && X.n[x].op == O_ATAN2) ta.insert(x);
  });
  std::sort(ci.nodes.begin(), ci.nodes.end());
  ci.trigArgs.assign(ta.begin(), ta.end());
  return ci;
}
// Check satisfiability of the conjunction of as.  If val!=null and sat, get value of that node.
static Res check(const std::vector<E>& as, int ms, E valOf = 0, std::string* val = nullptr) {
  if (Z.pid < 0) Z.start();
  double t0 = now();
  ConeInfo ci = coneOf(as);
  for (E a : as) Z.defCone(a);
  if (valOf) Z.defCone(valOf);
  std::string q = "(push 1)\n";
  for (E x : ci.nodes) {
    auto it = Z.axOf.find(x);
    if (it != Z.axOf.end()) for (auto& s : it->second) q += "(assert " + s + ")\n";
  }
  for (E a : ci.trigArgs) {
    auto it = Z.trigAxOf.find(a);
    if (it != Z.trigAxOf.end()) for (auto& s : it->second) q += "(assert " + s + ")\n";
  }
  for (auto& s : trigPairs(ci.trigArgs)) q += "(assert " + s + ")\n";
  for (E a : as) q += "(assert " + smt.ref(a) + ")\n";
  bool pure = X.mode == M_REAL;  // reals only: let the solver pick a non-incremental procedure
  for (E x : ci.nodes) if (X.n[x].s.k == S_BV) pure = false;
  Z.send(q);
  Z.queries++;
  Res r = R_UNK;
  // two procedures for real arithmetic: incremental first or second, whichever did better so far
  static double lead = 0;
  bool second = lead < 0;
  for (int k = 0; k < (pure ? 2 : 1) && r == R_UNK; k++) {
    bool dflt = pure && second == (k == 0);
    int t = pure && k == 0 ? std::max(40, ms / 4) : ms;
    Z.send(dflt ? "(check-sat-using (try-for default " + std::to_string(t) + "))\n" : "(set-option :timeout " + std::to_string(t) + ")\n(check-sat)\n");
    Z.flushOut();
    std::string l;
    bool ok = Z.readLine(l, t / 1000.0 * 3 + 5);
    if (!ok) {
      if (optVerbose) fprintf(stderr, "symx: solver restart\n");
      Z.stop();
      Z.start();
      Z.time += now() - t0;
      Z.unknowns++;
      return R_UNK;
    }
    if (l == "sat") r = R_SAT;
    else if (l == "unsat") r = R_UNSAT;
    else if (l == "unknown" || l == "timeout") r = R_UNK;
    else if (l.find("cancel") != std::string::npos || l.find("timeout") != std::string::npos || l.find("memory") != std::string::npos) {  // gave up
      Z.stop();
      Z.start();
      Z.time += now() - t0;
      Z.unknowns++;
      return R_UNK;
    }
    else fatal("solver said: %s", l.c_str());
    if (pure && k == 1 && r != R_UNK) lead = std::max(-3.0, std::min(3.0, lead + (dflt ? -1 : 1)));
  }
  if (r == R_SAT && valOf && val) {
    Z.send("(get-value (" + smt.ref(valOf) + "))\n");
    Z.flushOut();
    std::string acc, l;
    int depth = 0;
    do {
      if (!Z.readLine(l, 10)) fatal("solver get-value");
      for (char c : l) depth += c == '(' ? 1 : c == ')' ? -1 : 0;
      acc += l;
    } while (depth > 0);
    *val = acc;
  }
  Z.send("(pop 1)\n");
  if (r == R_UNK) Z.unknowns++;
  Z.time += now() - t0;
  return r;
}

// ---------------------------------------------------------------- IR, compiled
static LLVMModuleRef M;
static LLVMTargetDataRef TD;
static LLVMContextRef CTX;

struct Flat { std::vector<Sort> s; std::vector<u64> off; u64 size = 0; };
static std::unordered_map<LLVMTypeRef, Flat> flatCache;
static void flattenInto(LLVMTypeRef t, u64 base, Flat& f) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: f.s.push_back(sBV(LLVMGetIntTypeWidth(t))); f.off.push_back(base); break;
    case LLVMPointerTypeKind: f.s.push_back(sBV(64)); f.off.push_back(base); break;
    case LLVMDoubleTypeKind: f.s.push_back(sF64()); f.off.push_back(base); break;
    case LLVMFloatTypeKind: f.s.push_back(sF32()); f.off.push_back(base); break;
    case LLVMStructTypeKind: {
      unsigned n = LLVMCountStructElementTypes(t);
      for (unsigned i = 0; i < n; i++) flattenInto(LLVMStructGetTypeAtIndex(t, i), base + LLVMOffsetOfElement(TD, t, i), f);
      break;
    }
    case LLVMArrayTypeKind: {
      LLVMTypeRef e = LLVMGetElementType(t);
      u64 n = LLVMGetArrayLength2(t), sz = LLVMABISizeOfType(TD, e);
      for (u64 i = 0; i < n; i++) flattenInto(e, base + i * sz, f);
      break;
    }
    case LLVMVectorTypeKind: {
      LLVMTypeRef e = LLVMGetElementType(t);
      unsigned n = LLVMGetVectorSize(t);
      u64 sz = LLVMABISizeOfType(TD, e);
      for (unsigned i = 0; i < n; i++) flattenInto(e, base + i * sz, f);
      break;
    }
    case LLVMVoidTypeKind: case LLVMMetadataTypeKind: case LLVMLabelTypeKind: case LLVMTokenTypeKind: break;
    default: {
      char* s = LLVMPrintTypeToString(t);
      fatal("unsupported type %s", s);
    }
  }
}
static const Flat& flat(LLVMTypeRef t) {
  auto it = flatCache.find(t);
  if (it != flatCache.end()) return it->second;
  Flat f;
  flattenInto(t, 0, f);
  if (LLVMTypeIsSized(t)) f.size = LLVMABISizeOfType(TD, t);
  return flatCache[t] = f;
}

struct Opnd {
  int slot = -1;      // register, or
  int n = 1;
  E c = 0;            // scalar constant
  std::vector<E>* cs = nullptr;  // aggregate constant
};
struct CFunc;
struct CInst {
  LLVMOpcode op;
  LLVMValueRef v;
  int dst = -1, ndst = 0;
  std::vector<Opnd> ops;
  int pred = 0;
  const Flat* ty = nullptr;      // result / memory type
  Sort sort{};
  // gep
  u64 gconst = 0;
  std::vector<std::pair<int, u64>> gscale;  // operand index, scale
  std::vector<int> succ;                   // successor block ids
  std::vector<u64> cases;
  int off = 0;                             // extract/insert slot offset
  LLVMValueRef callee = nullptr;
  int bfn = -1;                            // builtin id (resolved lazily) -1 unresolved
  CFunc* cf = nullptr;
  u64 size = 0, align = 0;
  std::vector<int> mask;
  std::vector<u64> byval;                  // per arg size or 0
  std::vector<u32> stripNote;
  int loc = -1;
  std::vector<std::pair<int, Opnd>> clauses;  // landingpad: kind(0 catch,1 filter)
  bool cleanup = false;
};
struct CPhi { int dst, n; std::vector<std::pair<int, Opnd>> in; };
struct Region { int join = -1; std::vector<int> order; };  // blocks between a branch and its join
struct CBlock { int start = 0, end = 0; std::vector<CPhi> phis; bool looked = false; Region region; };
struct CFunc {
  LLVMValueRef fn;
  std::string name;
  std::vector<CInst> insts;
  std::vector<CBlock> blocks;
  int nslots = 0;
  std::vector<int> argSlot, argN;
  bool nounwind = false;
  bool varargs = false;
};
static std::unordered_map<LLVMValueRef, CFunc*> cfuncs;

// ---------------------------------------------------------------- memory
struct SB { E e; u32 i; };
enum { K_GLOBAL, K_STACK, K_HEAP, K_FUNC };
struct Obj {
  u64 base, size;
  u8 kind;
  bool freed = false, ro = false;
  std::vector<u8> d;
  std::vector<SB> s;
  std::string what;
};
static std::vector<Obj*> objs;        // sorted by base
static std::unordered_map<LLVMValueRef, u64> gaddr;
static std::unordered_map<u64, LLVMValueRef> fnAt;
static u64 nextAddr;
static Obj* lastObj = nullptr;
static size_t nGlobalObjs = 0;

struct PathEnd { int why; };  // 0 done, 1 infeasible, 2 crash, 3 limit

static Obj* newObj(u64 size, u8 kind, const std::string& what, u64 align = 16) {
  Obj* o = new Obj;
  if (align < 16) align = 16;
  nextAddr = (nextAddr + align - 1) / align * align;
  o->base = nextAddr;
  o->size = size;
  o->kind = kind;
  o->d.assign(size, 0x7F);
  o->what = what;
  nextAddr += size + 32;
  objs.push_back(o);
  return o;
}
static Obj* findObj(u64 a) {
  if (lastObj && a >= lastObj->base && a < lastObj->base + std::max<u64>(lastObj->size, 1)) return lastObj;
  size_t lo = 0, hi = objs.size();
  while (lo < hi) {
    size_t m = (lo + hi) / 2;
    if (objs[m]->base <= a) lo = m + 1; else hi = m;
  }
  if (lo == 0) return nullptr;
  Obj* o = objs[lo - 1];
  if (a <= o->base + o->size) { lastObj = o; return o; }
  return nullptr;
}
[[noreturn]] static void crash(const std::string& what);
static Obj* access(u64 a, u64 n, bool wr) {
  Obj* o = findObj(a);
  if (!o || o->kind == K_FUNC) crash(std::string("invalid-") + (wr ? "write" : "read"));
  if (o->freed) crash("use-after-free");
  if (a + n > o->base + o->size || a + n < a) crash(std::string("out-of-bounds-") + (wr ? "write" : "read"));
  if (wr && o->ro) crash("write-to-constant");
  return o;
}
static E loadScalar(u64 a, Sort s) {
  u64 n = s.bytes();
  Obj* o = access(a, n, false);
  u64 off = a - o->base;
  bool conc = o->s.empty();
  if (!conc) {
    conc = true;
    for (u64 i = 0; i < n; i++) if (o->s[off + i].e) { conc = false; break; }
  }
  if (conc) {
    u64 v = 0, hi = 0;
    for (u64 i = 0; i < n && i < 8; i++) v |= (u64)o->d[off + i] << (8 * i);
    for (u64 i = 8; i < n && i < 16; i++) hi |= (u64)o->d[off + i] << (8 * (i - 8));
    return X.cst(s, v, hi);
  }
  SB b0 = o->s[off];
  if (b0.e && b0.i == 0 && (u64)X.n[b0.e].s.bytes() == n) {
    bool same = true;
    for (u64 i = 1; i < n; i++) if (o->s[off + i].e != b0.e || o->s[off + i].i != i) { same = false; break; }
    if (same) {
      Sort es = X.n[b0.e].s;
      if (es == s) return b0.e;
      if (es.fp() && s.k == S_BV) return X.mkBits(b0.e);
      if (s.fp() && es.k == S_BV) return X.mkFromBits(b0.e, s);
      if (s.k == S_BOOL) return es.k == S_BV ? X.mkExtract(b0.e, 0, 0) : b0.e;
      if (es.k == S_BOOL) return X.mkExt(O_ZEXT, b0.e, s.w);
      if (es.k == S_BV && s.k == S_BV) return s.w < es.w ? X.mkExtract(b0.e, s.w - 1, 0) : X.mkExt(O_ZEXT, b0.e, s.w);
    }
  }
  auto byteE = [&](u64 i) -> E {
    SB b = o->s[off + i];
    if (!b.e) return X.cst(sBV(8), o->d[off + i]);
    E e = b.e;
    if (X.n[e].s.fp()) e = X.mkBits(e);
    if (X.n[e].s.k == S_BOOL) e = X.mkExt(O_ZEXT, e, 8);
    if ((int)(8 * b.i + 8) > X.n[e].s.w) e = X.mkExt(O_ZEXT, e, (X.n[e].s.w + 7) / 8 * 8);
    return X.mkExtract(e, 8 * b.i + 7, 8 * b.i);
  };
  E r = byteE(0);
  for (u64 i = 1; i < n; i++) r = X.mkConcat(byteE(i), r);
  if (s.k == S_BOOL) return X.mkExtract(r, 0, 0);
  if (s.fp()) return X.mkFromBits(r, s);
  if (s.w < X.n[r].s.w) return X.mkExtract(r, s.w - 1, 0);
  return r;
}
static void storeScalar(u64 a, E v) {
  Sort s = X.n[v].s;
  u64 n = s.bytes();
  Obj* o = access(a, n, true);
  u64 off = a - o->base;
  if (X.isC(v)) {
    u64 lo = X.n[v].k, hi = X.n[v].k2;
    for (u64 i = 0; i < n; i++) o->d[off + i] = i < 8 ? lo >> (8 * i) : hi >> (8 * (i - 8));
    if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[off + i].e = 0;
    return;
  }
  if (o->s.empty()) o->s.assign(o->size, SB{0, 0});
  for (u64 i = 0; i < n; i++) o->s[off + i] = SB{v, (u32)i};
}
static void copyMem(u64 dst, u64 src, u64 n) {
  if (!n) return;
  Obj* so = access(src, n, false);
  u64 soff = src - so->base;
  std::vector<u8> d(so->d.begin() + soff, so->d.begin() + soff + n);
  std::vector<SB> sh;
  if (!so->s.empty()) sh.assign(so->s.begin() + soff, so->s.begin() + soff + n);
  Obj* o = access(dst, n, true);
  u64 doff = dst - o->base;
  std::copy(d.begin(), d.end(), o->d.begin() + doff);
  bool any = false;
  for (auto& b : sh) if (b.e) any = true;
  if (any && o->s.empty()) o->s.assign(o->size, SB{0, 0});
  if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[doff + i] = sh.empty() ? SB{0, 0} : sh[i];
}
static std::string cstr(u64 a) {
  std::string r;
  for (;; a++) {
    E b = loadScalar(a, sBV(8));
    if (!X.isC(b)) { r += '?'; continue; }
    if (!X.cv(b)) break;
    r += (char)X.cv(b);
    if (r.size() > 4096) break;
  }
  return r;
}

// ---------------------------------------------------------------- path state
struct Dec { u8 kind; u8 taken; u8 implied; u64 val; };
static std::vector<std::vector<Dec>> work;
static std::vector<Dec> prefix, trail;
static size_t dpos;
static std::vector<E> pc;
static std::unordered_set<E> known;     // literals known true on this path
static std::vector<E> pool, hints;
static std::map<std::string, int> occ;
static std::vector<std::pair<std::string, std::string>> choices;
static u64 instrs, totalInstrs, nPaths, nInfeasible, nCrashPaths, pathId;
struct Input { std::string name; E e; int kind; E s, c; };  // kind 0 f64, 1 int, 2 bool, 3 angle
static std::vector<Input> inputs;
static std::map<std::string, u64> reached;
static std::set<std::string> checkLabels;
static std::string curFnStack();

static void assertKnown(E c, bool addPc) {
  if (X.isC(c)) return;
  if (!known.insert(c).second) return;
  if (addPc) pc.push_back(c);
  // conjunctions give their parts
  std::vector<E> st{c};
  while (!st.empty()) {
    E x = st.back();
    st.pop_back();
    if (X.n[x].op == O_AND) { known.insert(X.n[x].a); known.insert(X.n[x].b); st.push_back(X.n[x].a); st.push_back(X.n[x].b); }
    if (X.n[x].op == O_NOT && X.n[X.n[x].a].op == O_OR) {
      E o = X.n[x].a;
      E p = X.mkNot(X.n[o].a), q = X.mkNot(X.n[o].b);
      known.insert(p); known.insert(q);
      st.push_back(p); st.push_back(q);
    }
  }
}
static std::vector<E> slicePC(const std::vector<E>& goals, const std::vector<E>& from) {
  std::vector<char> in(from.size(), 0);
  std::set<u32> sup;
  for (E g : goals) for (u32 s : support(g)) sup.insert(s);
  std::vector<E> r;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < from.size(); i++) {
      if (in[i]) continue;
      const auto& s = support(from[i]);
      bool hit = false;
      for (u32 x : s) if (sup.count(x)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (u32 x : s) sup.insert(x); }
    }
  }
  for (size_t i = 0; i < from.size(); i++) if (in[i]) r.push_back(from[i]);
  return r;
}
static std::unordered_map<u64, Res> feasCache;
static Res feasible(E c) {
  std::vector<E> q = slicePC({c}, pc);
  q.push_back(c);
  u64 h = 1469598103934665603ull;
  std::vector<E> srt(q);
  std::sort(srt.begin(), srt.end());
  for (E e : srt) h = (h ^ e) * 1099511628211ull;
  auto it = feasCache.find(h);
  if (it != feasCache.end()) return it->second;
  Res r = check(q, optBranchMs);
  return feasCache[h] = r;
}
static int optMergeAfter = 4;
static int nForks;  // two-way decisions of this path
static bool decide(E c) {
  if (X.isC(c)) return X.cv(c);
  if (known.count(c)) return true;
  E nc = X.mkNot(c);
  if (known.count(nc)) return false;
  if (optConcrete) fatal("symbolic decision in concrete mode");
  if (dpos < prefix.size()) {
    Dec d = prefix[dpos++];
    trail.push_back(d);
    nForks += !d.implied;
    assertKnown(d.taken ? c : nc, !d.implied);
    return d.taken;
  }
  dpos++;
  if (now() > optDeadline) throw PathEnd{4};
  Res t = feasible(c);
  if (t == R_UNSAT) {
    trail.push_back({0, 0, 1, 0});
    assertKnown(nc, false);
    return false;
  }
  Res f = feasible(nc);
  if (f == R_UNSAT) {
    trail.push_back({0, 1, 1, 0});
    assertKnown(c, false);
    return true;
  }
  auto alt = trail;
  alt.push_back({0, 0, 0, 0});
  work.push_back(alt);
  trail.push_back({0, 1, 0, 0});
  nForks++;
  assertKnown(c, true);
  return true;
}
static u64 choose(u64 lo, u64 hi) {
  if (dpos < prefix.size()) {
    Dec d = prefix[dpos++];
    trail.push_back(d);
    return d.val;
  }
  dpos++;
  for (u64 v = hi; v > lo; v--) {
    auto alt = trail;
    alt.push_back({1, 1, 0, v});
    work.push_back(alt);
  }
  trail.push_back({1, 1, 0, lo});
  return lo;
}
static u64 parseBV(const std::string& s) {
  size_t p = s.rfind("#x");
  if (p != std::string::npos) return strtoull(s.c_str() + p + 2, 0, 16);
  p = s.rfind("#b");
  if (p != std::string::npos) return strtoull(s.c_str() + p + 2, 0, 2);
  p = s.rfind("(_ bv");
  if (p != std::string::npos) return strtoull(s.c_str() + p + 5, 0, 10);
  fatal("cannot parse value %s", s.c_str());
}
// Make an integer expression concrete on this path (forking over its values).
static u64 concretize(E e) {
  for (;;) {
    if (X.isC(e)) return X.cv(e);
    if (X.n[e].op == O_ITE) { e = decide(X.n[e].a) ? X.n[e].b : X.n[e].c; continue; }
    if (X.n[e].op == O_ADD && X.isC(X.n[e].a)) return (X.cv(X.n[e].a) + concretize(X.n[e].b)) & ExprDB::mask(X.n[e].s.w);
    break;
  }
  for (int guard = 0;; guard++) {
    if (guard > 4096) crash("too-many-values");
    u64 v;
    if (dpos < prefix.size()) {
      Dec d = prefix[dpos++];
      trail.push_back(d);
      v = d.val;
    } else {
      dpos++;
      std::string val;
      std::vector<E> q = slicePC({e}, pc);
      // known implied literals are not needed
      Res r = check(q, optCrashMs, e, &val);
      if (r == R_UNSAT) throw PathEnd{1};
      if (r == R_UNK) fatal("cannot concretize a symbolic address/size (solver unknown)");
      v = parseBV(val);
      trail.push_back({2, 1, 0, v});
    }
    if (decide(X.mkEq(e, X.cst(X.n[e].s, v)))) return v;
  }
}

// ---------------------------------------------------------------- obligations
static u64 obTotal, obTrivial, obInline, obDumped, obIncon;
static double inlineTime;
static FILE* manifest;
static std::map<std::string, u64> obByLabel;
static std::set<std::pair<u64, std::string>> obSeen;

static std::string jesc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static void dumpQuery(const std::string& file, const std::vector<E>& pcs, const std::vector<E>& pl, E negGoal) {
  FILE* f = fopen(file.c_str(), "w");
  if (!f) fatal("cannot write %s", file.c_str());
  std::vector<E> roots(pcs);
  roots.insert(roots.end(), pl.begin(), pl.end());
  roots.insert(roots.end(), hints.begin(), hints.end());
  for (auto& in : inputs) { roots.push_back(in.e); if (in.kind == 3) { roots.push_back(in.s); roots.push_back(in.c); } }
  if (negGoal) roots.push_back(negGoal);
  ConeInfo ci = coneOf(roots);
  fprintf(f, "%s", smt.prelude());
  std::set<E> te;
  for (E x : ci.nodes) {
    std::string d;
    std::vector<std::string> ax;
    if (smt.isTrig(x)) {
      E a = X.n[x].a;
      if (te.insert(a).second) {
        smt.trigDecl(a, d, ax);
        fprintf(f, "%s", d.c_str());
        for (auto& s : ax) fprintf(f, ";;AX\n(assert %s)\n", s.c_str());
      }
      continue;
    }
    smt.def(x, d, ax);
    fprintf(f, "%s", d.c_str());
    for (auto& s : ax) fprintf(f, ";;AX\n(assert %s)\n", s.c_str());
  }
  for (auto& s : trigPairs(ci.trigArgs)) fprintf(f, ";;AX\n(assert %s)\n", s.c_str());
  if (X.mode != M_FP)
    for (E a : ci.trigArgs) fprintf(f, ";;TRIG %s %s %s\n", smt.ref(a).c_str(), Smt::nS(a).c_str(), Smt::nC(a).c_str());
  for (E p : pcs) fprintf(f, ";;PC\n(assert %s)\n", smt.ref(p).c_str());
  for (E p : pl) fprintf(f, ";;POOL\n(assert %s)\n", smt.ref(p).c_str());
  for (E p : hints) fprintf(f, ";;HINT %s\n", smt.ref(p).c_str());
  if (negGoal) fprintf(f, ";;GOAL\n(assert %s)\n", smt.ref(negGoal).c_str());
  for (auto& in : inputs) {
    if (in.kind == 3) fprintf(f, ";;INPUT angle %s %s %s\n", in.name.c_str(), smt.ref(in.s).c_str(), smt.ref(in.c).c_str());
    else {
      Sort s = X.n[in.e].s;
      fprintf(f, ";;INPUT %s %s %s\n", s.fp() ? (s.k == S_F32 ? "f32" : "f64") : s.k == S_BOOL ? "bool" : "int", in.name.c_str(), smt.ref(in.e).c_str());
    }
  }
  for (auto& c : choices) fprintf(f, ";;CHOICE %s %s\n", c.first.c_str(), c.second.c_str());
  fclose(f);
}
static std::map<std::string, int> dumpCount;
static int reachDumps = 0;
// kind: "check" (goal must hold), "crash" (path must be infeasible), "reach"
static void obligation(const std::string& kind, const std::string& label, E cond, bool usePool) {
  obTotal++;
  obByLabel[label]++;
  if (X.isC(cond) && X.cv(cond)) { obTrivial++; return; }
  if (known.count(cond)) { obTrivial++; return; }
  if (optConcrete) {
    printf("CONCRETE-FAIL %s\n", label.c_str());
    return;
  }
  if (dumpCount[label] >= 300) {
    obDumped++;
    fprintf(manifest, "{\"kind\":\"skipped\",\"label\":\"%s\",\"path\":%llu}\n", jesc(label).c_str(), (unsigned long long)pathId);
    return;
  }
  double t0 = now();
  E neg = X.mkNot(cond);
  std::vector<E> goal{neg};
  bool triv = X.isC(neg);  // goal is constant false: needs contradiction from PC/pool
  auto tryWith = [&](std::vector<E> as, int ms) { return check(as, ms) == R_UNSAT; };
  bool ok = false;
  const int stageMs = dumpCount[label] < 12 ? optStageMs : std::min(optStageMs, 200);  // then leave more to the driver
  std::vector<E> sl = triv ? pc : slicePC({neg}, pc);
  Res r0;
  {
    std::vector<E> as(sl);
    if (!triv) as.push_back(neg);
    r0 = check(as, usePool && !pool.empty() ? stageMs : (kind == "crash" ? optCrashMs : stageMs * 3));
    ok = r0 == R_UNSAT;
  }
  if (!ok && usePool && !pool.empty()) {
    // single pool assumptions ranked by overlap
    const auto gs = support(neg);
    std::vector<std::pair<double, size_t>> rank;
    for (size_t i = 0; i < pool.size(); i++) {
      const auto& s = support(pool[i]);
      size_t both = 0;
      for (u32 x : s) if (std::binary_search(gs.begin(), gs.end(), x)) both++;
      if (!both && !s.empty()) continue;
      double jac = double(both) / (gs.size() + s.size() - both + 1e-9);
      rank.push_back({-jac, i});
    }
    std::sort(rank.begin(), rank.end());
    auto single = [&](bool wide, size_t lim) {
      for (size_t k = 0, done = 0; k < rank.size() && done < lim && !ok; k++) {
        E p = pool[rank[k].second];
        const auto& s = support(p);
        if (std::includes(s.begin(), s.end(), gs.begin(), gs.end()) != wide) continue;
        done++;
        std::vector<E> as = slicePC({neg, p}, pc);
        as.push_back(p);
        if (!triv) as.push_back(neg);
        ok = tryWith(as, stageMs);
      }
    };
    single(true, 10);
    // one of them with everything that speaks of no further inputs
    std::vector<E> before;
    for (size_t k = 0; k < rank.size() && k < 5 && !ok; k++) {
      E p = k ? pool[rank[k - 1].second] : 0;  // first without any
      auto u = gs;
      if (p) for (u32 x : support(p)) if (!std::binary_search(gs.begin(), gs.end(), x)) u.push_back(x);
      std::sort(u.begin(), u.end());
      std::vector<E> sel;
      if (p) sel.push_back(p);
      for (size_t i = 0; i < pool.size() && sel.size() < 12; i++) {
        const auto& s = support(pool[i]);
        if (pool[i] == p || s.empty()) continue;
        if (std::includes(u.begin(), u.end(), s.begin(), s.end())) sel.push_back(pool[i]);
      }
      if (sel.size() < 2) continue;
      {
        auto key = sel;
        std::sort(key.begin(), key.end());
        if (key == before) continue;
        before = key;
      }
      std::vector<E> g2(sel);
      g2.push_back(neg);
      std::vector<E> as = slicePC(g2, pc);
      as.insert(as.end(), sel.begin(), sel.end());
      if (!triv) as.push_back(neg);
      ok = tryWith(as, stageMs);
    }
    if (!ok) {
      single(false, 6);
      for (int pass = 0; pass < 2 && !ok; pass++) {
        std::vector<E> as;
        std::vector<E> sel;
        for (size_t k = 0; k < rank.size() && k < (pass ? 64u : 6u); k++) sel.push_back(pool[rank[k].second]);
        std::vector<E> g2(sel);
        g2.push_back(neg);
        as = slicePC(g2, pc);
        as.insert(as.end(), sel.begin(), sel.end());
        if (!triv) as.push_back(neg);
        ok = tryWith(as, stageMs * 3);
        if (rank.size() <= 6) break;
      }
    }
  }
  inlineTime += now() - t0;
  if (ok) { obInline++; return; }
  dumpCount[label]++;
  std::string file = optOut + "/ob_" + std::to_string(obTotal) + ".smt2";
  dumpQuery(file, pc, usePool ? pool : std::vector<E>{}, triv ? 0 : neg);
  obDumped++;
  fprintf(manifest, "{\"kind\":\"%s\",\"label\":\"%s\",\"file\":\"%s\",\"path\":%llu,\"inline\":\"%s\"}\n", kind.c_str(), jesc(label).c_str(), file.c_str(), (unsigned long long)pathId, r0 == R_SAT ? "sat" : "unknown");
  fflush(manifest);
}
static void reach(const std::string& label) {
  u64 k = reached[label]++;
  if (optConcrete) { printf("REACH %s\n", label.c_str()); return; }
  if (k < 1) {
    std::string file = optOut + "/reach_" + std::to_string(reachDumps++) + ".smt2";
    dumpQuery(file, pc, pool, 0);
    fprintf(manifest, "{\"kind\":\"reach\",\"label\":\"%s\",\"file\":\"%s\",\"path\":%llu}\n", jesc(label).c_str(), file.c_str(), (unsigned long long)pathId);
  }
}
static void crash(const std::string& what) {
  std::string l = "crash:" + what + "@" + curFnStack();
  obligation("crash", l, X.fls(), false);
  throw PathEnd{2};
}

// ---------------------------------------------------------------- constants
static E evalConstScalar(LLVMValueRef v);
static u64 addrOfGlobal(LLVMValueRef g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  size_t l;
  fatal("no address for global %s", LLVMGetValueName2(g, &l));
}
static u64 gepConst(LLVMValueRef v) {
  u64 base = X.cv(evalConstScalar(LLVMGetOperand(v, 0)));
  LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
  int n = LLVMGetNumOperands(v);
  for (int i = 1; i < n; i++) {
    i64 idx = LLVMConstIntGetSExtValue(LLVMGetOperand(v, i));
    if (i == 1) base += idx * LLVMABISizeOfType(TD, t);
    else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { base += LLVMOffsetOfElement(TD, t, idx); t = LLVMStructGetTypeAtIndex(t, idx); }
    else { t = LLVMGetElementType(t); base += idx * LLVMABISizeOfType(TD, t); }
  }
  return base;
}
static void evalConst(LLVMValueRef v, std::vector<E>& out) {
  LLVMTypeRef t = LLVMTypeOf(v);
  const Flat& f = flat(t);
  switch (LLVMGetValueKind(v)) {
    case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: case LLVMConstantAggregateZeroValueKind:
    case LLVMConstantPointerNullValueKind: case LLVMConstantTokenNoneValueKind:
      for (auto& s : f.s) out.push_back(X.cst(s, 0));
      return;
    case LLVMConstantIntValueKind: {
      int w = LLVMGetIntTypeWidth(t);
      if (w <= 64) out.push_back(X.cst(sBV(w), LLVMConstIntGetZExtValue(v)));
      else {
        char* s = LLVMPrintValueToString(v);
        const char* p = strchr(s, ' ') + 1;
        bool neg = *p == '-';
        if (neg) p++;
        u128 x = 0;
        for (; *p >= '0' && *p <= '9'; p++) x = x * 10 + (*p - '0');
        if (neg) x = -x;
        out.push_back(X.cst(sBV(w), (u64)x, (u64)(x >> 64)));
        LLVMDisposeMessage(s);
      }
      return;
    }
    case LLVMConstantFPValueKind: {
      LLVMBool lose;
      double d = LLVMConstRealGetDouble(v, &lose);
      out.push_back(X.cF(f.s[0], d));
      return;
    }
    case LLVMConstantStructValueKind: case LLVMConstantArrayValueKind: case LLVMConstantVectorValueKind: {
      int n = LLVMGetNumOperands(v);
      for (int i = 0; i < n; i++) evalConst(LLVMGetOperand(v, i), out);
      return;
    }
    case LLVMConstantDataArrayValueKind: {
      u64 n = LLVMGetArrayLength2(t);
      for (u64 i = 0; i < n; i++) evalConst(LLVMGetAggregateElement(v, i), out);
      return;
    }
    case LLVMConstantDataVectorValueKind: {
      u64 n = LLVMGetVectorSize(t);
      for (u64 i = 0; i < n; i++) evalConst(LLVMGetAggregateElement(v, i), out);
      return;
    }
    case LLVMFunctionValueKind: case LLVMGlobalVariableValueKind: case LLVMGlobalAliasValueKind:
      out.push_back(X.cst(sBV(64), addrOfGlobal(v)));
      return;
    case LLVMConstantExprValueKind: {
      switch (LLVMGetConstOpcode(v)) {
        case LLVMGetElementPtr: out.push_back(X.cst(sBV(64), gepConst(v))); return;
        case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: {
          std::vector<E> tmp;
          evalConst(LLVMGetOperand(v, 0), tmp);
          if (f.s[0].k == S_BV && tmp.size() == 1 && X.n[tmp[0]].s.k == S_BV) {
            int w = f.s[0].w;
            out.push_back(X.cst(sBV(w), X.cv(tmp[0])));
          } else out.insert(out.end(), tmp.begin(), tmp.end());
          return;
        }
        case LLVMTrunc: out.push_back(X.mkExtract(evalConstScalar(LLVMGetOperand(v, 0)), f.s[0].w - 1, 0)); return;
        case LLVMSub: out.push_back(X.mkBV(O_SUB, evalConstScalar(LLVMGetOperand(v, 0)), evalConstScalar(LLVMGetOperand(v, 1)))); return;
        case LLVMAdd: out.push_back(X.mkBV(O_ADD, evalConstScalar(LLVMGetOperand(v, 0)), evalConstScalar(LLVMGetOperand(v, 1)))); return;
        default: break;
      }
      char* s = LLVMPrintValueToString(v);
      fatal("constant expr %s", s);
    }
    default: {
      char* s = LLVMPrintValueToString(v);
      fatal("constant kind %d: %s", LLVMGetValueKind(v), s);
    }
  }
}
static E evalConstScalar(LLVMValueRef v) {
  std::vector<E> o;
  evalConst(v, o);
  return o.at(0);
}

// ---------------------------------------------------------------- compile functions
struct Loc { std::string file, fn; unsigned line; };
static std::vector<Loc> locs;
static std::vector<u64> locHits;
static std::map<std::tuple<std::string, std::string, unsigned>, int> locIdx;
static std::unordered_map<LLVMMetadataRef, std::string> scopeName;
static std::string nameOfScope(LLVMMetadataRef s) {
  auto it = scopeName.find(s);
  if (it != scopeName.end()) return it->second;
  LLVMValueRef mv = LLVMMetadataAsValue(CTX, s);
  char* p = LLVMPrintValueToString(mv);
  std::string t = p, r;
  LLVMDisposeMessage(p);
  size_t k = t.find("linkageName: \"");
  if (k != std::string::npos && t.find("DISubprogram") != std::string::npos) { k += 14; r = t.substr(k, t.find('"', k) - k); }
  else if ((k = t.find("name: \"")) != std::string::npos && t.find("DISubprogram") != std::string::npos) { k += 7; r = t.substr(k, t.find('"', k) - k); }
  return scopeName[s] = r;
}
static int locOf(LLVMValueRef i) {
  unsigned len = 0;
  LLVMMetadataRef dl = LLVMInstructionGetDebugLoc(i);
  if (!dl) return -1;
  const char* f = LLVMGetDebugLocFilename(i, &len);
  if (!f) return -1;
  unsigned line = LLVMGetDebugLocLine(i);
  std::string fn = nameOfScope(LLVMDILocationGetScope(dl));
  auto key = std::make_tuple(std::string(f, len), fn, line);
  auto it = locIdx.find(key);
  if (it != locIdx.end()) return it->second;
  locs.push_back({std::string(f, len), fn, line});
  locHits.push_back(0);
  return locIdx[key] = locs.size() - 1;
}

static CFunc* compileFn(LLVMValueRef fn) {
  auto it = cfuncs.find(fn);
  if (it != cfuncs.end()) return it->second;
  CFunc* cf = new CFunc;
  cfuncs[fn] = cf;
  cf->fn = fn;
  size_t l;
  cf->name = LLVMGetValueName2(fn, &l);
  unsigned nu = LLVMGetEnumAttributeKindForName("nounwind", 8);
  cf->nounwind = LLVMGetEnumAttributeAtIndex(fn, LLVMAttributeFunctionIndex, nu) != nullptr;
  cf->varargs = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(fn));
  unsigned byvalK = LLVMGetEnumAttributeKindForName("byval", 5);
  std::unordered_map<LLVMValueRef, std::pair<int, int>> slot;
  std::unordered_map<LLVMBasicBlockRef, int> bid;
  auto alloc = [&](LLVMValueRef v) {
    int n = flat(LLVMTypeOf(v)).s.size();
    slot[v] = {cf->nslots, n};
    cf->nslots += n;
  };
  for (LLVMValueRef p = LLVMGetFirstParam(fn); p; p = LLVMGetNextParam(p)) {
    alloc(p);
    cf->argSlot.push_back(slot[p].first);
    cf->argN.push_back(slot[p].second);
  }
  int nb = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(fn); b; b = LLVMGetNextBasicBlock(b)) {
    bid[b] = nb++;
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) alloc(i);
  }
  auto opnd = [&](LLVMValueRef v) {
    Opnd o;
    auto s = slot.find(v);
    if (s != slot.end()) { o.slot = s->second.first; o.n = s->second.second; return o; }
    std::vector<E> cs;
    LLVMValueKind k = LLVMGetValueKind(v);
    if (k == LLVMMetadataAsValueValueKind || k == LLVMInlineAsmValueKind || k == LLVMBasicBlockValueKind) { o.n = 0; return o; }
    evalConst(v, cs);
    o.n = cs.size();
    if (o.n == 1) o.c = cs[0];
    else o.cs = new std::vector<E>(cs);
    return o;
  };
  cf->blocks.resize(nb);
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(fn); b; b = LLVMGetNextBasicBlock(b)) {
    CBlock& cb = cf->blocks[bid[b]];
    cb.start = cf->insts.size();
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      LLVMOpcode op = LLVMGetInstructionOpcode(i);
      if (op == LLVMPHI) {
        CPhi p;
        p.dst = slot[i].first;
        p.n = slot[i].second;
        for (unsigned k = 0; k < LLVMCountIncoming(i); k++) p.in.push_back({bid[LLVMGetIncomingBlock(i, k)], opnd(LLVMGetIncomingValue(i, k))});
        cb.phis.push_back(p);
        continue;
      }
      CInst c;
      c.op = op;
      c.v = i;
      c.dst = slot[i].first;
      c.ndst = slot[i].second;
      c.loc = locOf(i);
      c.ty = &flat(LLVMTypeOf(i));
      int no = LLVMGetNumOperands(i);
      switch (op) {
        case LLVMCall: case LLVMInvoke: {
          LLVMValueRef cal = LLVMGetCalledValue(i);
          unsigned na = LLVMGetNumArgOperands(i);
          LLVMValueKind k = LLVMGetValueKind(cal);
          if (k == LLVMGlobalAliasValueKind) { cal = LLVMAliasGetAliasee(cal); k = LLVMGetValueKind(cal); }
          if (k == LLVMFunctionValueKind) {
            c.callee = cal;
            std::string nm = LLVMGetValueName2(cal, &l);
            if (nm.rfind("llvm.dbg.", 0) == 0 || nm.rfind("llvm.lifetime.", 0) == 0 || nm.rfind("llvm.experimental.noalias", 0) == 0 || nm.rfind("llvm.assume", 0) == 0 || nm.rfind("llvm.donothing", 0) == 0 || nm.rfind("llvm.invariant", 0) == 0) continue;
          }
          for (unsigned a = 0; a < na; a++) {
            c.ops.push_back(opnd(LLVMGetOperand(i, a)));
            LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(i, a + 1, byvalK);
            c.byval.push_back(at ? LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at)) : 0);
          }
          if (!c.callee) {
            if (k == LLVMInlineAsmValueKind) { c.bfn = 0; c.callee = nullptr; c.off = 1; }
            else c.ops.push_back(opnd(cal));
          }
          if (op == LLVMInvoke) { c.succ.push_back(bid[LLVMGetNormalDest(i)]); c.succ.push_back(bid[LLVMGetUnwindDest(i)]); }
          break;
        }
        case LLVMBr:
          if (LLVMIsConditional(i)) c.ops.push_back(opnd(LLVMGetCondition(i)));
          for (unsigned k = 0; k < LLVMGetNumSuccessors(i); k++) c.succ.push_back(bid[LLVMGetSuccessor(i, k)]);
          break;
        case LLVMSwitch: {
          c.ops.push_back(opnd(LLVMGetOperand(i, 0)));
          unsigned ns = LLVMGetNumSuccessors(i);
          for (unsigned k = 0; k < ns; k++) {
            c.succ.push_back(bid[LLVMGetSuccessor(i, k)]);
            c.cases.push_back(k ? X.cv(evalConstScalar(LLVMGetOperand(i, 2 * k))) : 0);
          }
          break;
        }
        case LLVMGetElementPtr: {
          c.ops.push_back(opnd(LLVMGetOperand(i, 0)));
          LLVMTypeRef t = LLVMGetGEPSourceElementType(i);
          for (int k = 1; k < no; k++) {
            LLVMValueRef ix = LLVMGetOperand(i, k);
            u64 scale;
            if (k == 1) scale = LLVMABISizeOfType(TD, t);
            else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
              u64 e = LLVMConstIntGetZExtValue(ix);
              c.gconst += LLVMOffsetOfElement(TD, t, e);
              t = LLVMStructGetTypeAtIndex(t, e);
              continue;
            } else { t = LLVMGetElementType(t); scale = LLVMABISizeOfType(TD, t); }
            if (LLVMIsAConstantInt(ix)) c.gconst += LLVMConstIntGetSExtValue(ix) * scale;
            else { c.ops.push_back(opnd(ix)); c.gscale.push_back({(int)c.ops.size() - 1, scale}); }
          }
          break;
        }
        case LLVMAlloca:
          c.size = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i));
          c.align = LLVMGetAlignment(i);
          c.ops.push_back(opnd(LLVMGetOperand(i, 0)));
          break;
        case LLVMExtractValue: case LLVMInsertValue: {
          c.ops.push_back(opnd(LLVMGetOperand(i, 0)));
          LLVMTypeRef t = LLVMTypeOf(LLVMGetOperand(i, 0));
          const unsigned* ix = LLVMGetIndices(i);
          int off = 0;
          for (unsigned k = 0; k < LLVMGetNumIndices(i); k++) {
            if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
              for (unsigned q = 0; q < ix[k]; q++) off += flat(LLVMStructGetTypeAtIndex(t, q)).s.size();
              t = LLVMStructGetTypeAtIndex(t, ix[k]);
            } else { t = LLVMGetElementType(t); off += ix[k] * flat(t).s.size(); }
          }
          c.off = off;
          if (op == LLVMInsertValue) c.ops.push_back(opnd(LLVMGetOperand(i, 1)));
          break;
        }
        case LLVMICmp: c.pred = LLVMGetICmpPredicate(i); for (int k = 0; k < no; k++) c.ops.push_back(opnd(LLVMGetOperand(i, k))); break;
        case LLVMFCmp: c.pred = LLVMGetFCmpPredicate(i); for (int k = 0; k < no; k++) c.ops.push_back(opnd(LLVMGetOperand(i, k))); break;
        case LLVMLandingPad: {
          c.cleanup = LLVMIsCleanup(i);
          unsigned nc = LLVMGetNumClauses(i);
          for (unsigned k = 0; k < nc; k++) {
            LLVMValueRef cl = LLVMGetClause(i, k);
            bool filter = LLVMGetTypeKind(LLVMTypeOf(cl)) == LLVMArrayTypeKind;
            Opnd o;
            if (!filter) o = opnd(cl);
            c.clauses.push_back({filter ? 1 : 0, o});
          }
          break;
        }
        case LLVMShuffleVector:
          c.ops.push_back(opnd(LLVMGetOperand(i, 0)));
          c.ops.push_back(opnd(LLVMGetOperand(i, 1)));
          for (unsigned k = 0; k < LLVMGetNumMaskElements(i); k++) c.mask.push_back(LLVMGetMaskValue(i, k));
          break;
        case LLVMAtomicRMW: c.pred = LLVMGetAtomicRMWBinOp(i); for (int k = 0; k < no; k++) c.ops.push_back(opnd(LLVMGetOperand(i, k))); break;
        default:
          for (int k = 0; k < no; k++) c.ops.push_back(opnd(LLVMGetOperand(i, k)));
      }
      cf->insts.push_back(std::move(c));
    }
    cb.end = cf->insts.size();
  }
  return cf;
}

// ---------------------------------------------------------------- execution
struct Frame {
  CFunc* f;
  int pc;
  int block;
  size_t rb;                       // register base
  std::vector<Obj*> allocas;
  CInst* call;                     // call instruction in the caller
};
static std::vector<Frame> stack;
static std::vector<E> regs;
static u64 curExc, curExcSel;
struct Exc { u64 obj, type, dtor; int handlers; int refs; };
static std::unordered_map<u64, Exc> excs;
static std::vector<u64> caught;
static std::vector<u64> inflight;

static std::string demangleShort(const std::string& n) { return n; }
static std::string curFnStack() {
  if (stack.empty()) return "init";
  // innermost frame with a location
  for (int k = stack.size() - 1; k >= 0; k--) {
    Frame& f = stack[k];
    for (int p = std::min<int>(f.pc, (int)f.f->insts.size() - 1); p >= 0 && p > f.pc - 4; p--) {
      int l = f.f->insts[p].loc;
      if (l >= 0 && locs[l].file.find("/c++/") == std::string::npos) {
        size_t s = locs[l].file.rfind('/');
        return locs[l].file.substr(s == std::string::npos ? 0 : s + 1) + ":" + std::to_string(locs[l].line);
      }
    }
  }
  return demangleShort(stack.back().f->name);
}

static inline E get(const Opnd& o, int k = 0) {
  if (o.slot >= 0) return regs[stack.back().rb + o.slot + k];
  return o.cs ? (*o.cs)[k] : o.c;
}
static inline void put(const CInst& c, E v, int k = 0) { regs[stack.back().rb + c.dst + k] = v; }

static void pushFrame(CFunc* f, const std::vector<E>& args, CInst* call) {
  if (stack.size() > 2000) crash("stack-overflow");
  Frame fr;
  fr.f = f;
  fr.pc = f->blocks.at(0).start;
  fr.block = 0;
  fr.rb = regs.size();
  fr.call = call;
  regs.resize(fr.rb + f->nslots, 0);
  size_t k = 0;
  for (size_t a = 0; a < f->argSlot.size(); a++)
    for (int j = 0; j < f->argN[a]; j++) regs[fr.rb + f->argSlot[a] + j] = args.at(k++);
  stack.push_back(std::move(fr));
}
static void popFrame() {
  Frame& f = stack.back();
  for (Obj* o : f.allocas) { o->freed = true; o->d.clear(); o->d.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); }
  regs.resize(f.rb);
  stack.pop_back();
}
static void gotoBlock(int b) {
  Frame& f = stack.back();
  int from = f.block;
  CBlock& cb = f.f->blocks[b];
  if (!cb.phis.empty()) {
    static std::vector<E> tmp;
    tmp.clear();
    for (auto& p : cb.phis) {
      bool ok = false;
      for (auto& [pb, o] : p.in)
        if (pb == from) { for (int k = 0; k < p.n; k++) tmp.push_back(get(o, k)); ok = true; break; }
      if (!ok) fatal("phi without edge");
    }
    size_t q = 0;
    for (auto& p : cb.phis) for (int k = 0; k < p.n; k++) regs[f.rb + p.dst + k] = tmp[q++];
  }
  f.block = b;
  f.pc = cb.start;
}

// typeinfo subtype test; adj receives pointer adjustment
static u64 rd64(u64 a) { E e = loadScalar(a, sBV(64)); return concretize(e); }
static std::unordered_map<u64, int> tiKind;  // vtable address -> 0 class 1 si 2 vmi
static bool tiMatch(u64 thrown, u64 want, i64& adj) {
  if (thrown == want) return true;
  Obj* o = findObj(thrown);
  if (!o || o->size < 16) return false;
  u64 vt = rd64(thrown);
  auto it = tiKind.find(vt);
  if (it == tiKind.end()) return false;
  if (it->second == 1) return tiMatch(rd64(thrown + 16), want, adj);
  if (it->second == 2) {
    u64 nb = rd64(thrown + 16) >> 32;
    for (u64 k = 0; k < nb; k++) {
      u64 b = rd64(thrown + 24 + 16 * k);
      i64 fl = rd64(thrown + 32 + 16 * k);
      i64 a2 = adj + (fl >> 8);
      if (tiMatch(b, want, a2)) { adj = a2; return true; }
    }
  }
  return false;
}
static std::unordered_map<u64, u64> tiSel;
static u64 selOf(u64 ti) {
  auto it = tiSel.find(ti);
  if (it != tiSel.end()) return it->second;
  u64 s = tiSel.size() + 1;
  return tiSel[ti] = s;
}
// Search: is there any handler for the exception up the stack?
static u64 adjustedPtr;
static bool landing(CInst& lp, u64 exc, bool& isCleanup, u64& sel) {
  Exc& x = excs[exc];
  for (auto& [k, o] : lp.clauses) {
    if (k == 1) { isCleanup = false; sel = 0xFFFFFFFF; return true; }
    u64 ti = X.cv(get(o));
    i64 adj = 0;
    if (ti == 0) { sel = selOf(0); isCleanup = false; adjustedPtr = exc; return true; }
    if (tiMatch(x.type, ti, adj)) { sel = selOf(ti); isCleanup = false; adjustedPtr = exc + adj; return true; }
  }
  if (lp.cleanup) { isCleanup = true; sel = 0; return true; }
  return false;
}
static CInst* landingPadOf(Frame& f, CInst* inv) {
  CBlock& cb = f.f->blocks[inv->succ[1]];
  return &f.f->insts[cb.start];
}
// Start/continue unwinding from the current top frame; top frame's current
// instruction is `at` (the call that raised or the resume).
static void unwind(u64 exc, bool fromResume) {
  // phase 1 (only for fresh throws): any catching handler before a nounwind frame?
  CInst* at = &stack.back().f->insts[stack.back().pc - 1];
  if (!fromResume) {
    CInst* a = at;
    bool found = false;
    for (int k = (int)stack.size() - 1; k >= 0; k--) {
      Frame& f = stack[k];
      if (a->op == LLVMInvoke) {
        CInst* lp = landingPadOf(f, a);
        // evaluate clause operands: all constants
        bool cl;
        u64 sel;
        if (landing(*lp, exc, cl, sel) && !cl) { found = true; break; }
      }
      if (f.f->nounwind) crash("exception-leaves-noexcept");
      a = f.call;
      if (!a) break;
    }
    if (!found) crash("uncaught-exception");
  }
  CInst* a = at;
  for (;;) {
    Frame& f = stack.back();
    if (a->op == LLVMInvoke) {
      CInst* lp = landingPadOf(f, a);
      bool cl;
      u64 sel;
      if (landing(*lp, exc, cl, sel)) {
        curExc = exc;
        curExcSel = sel;
        gotoBlock(a->succ[1]);
        return;
      }
    }
    if (f.f->nounwind) crash("exception-leaves-noexcept");
    a = f.call;
    if (!a || stack.size() <= 1) crash("uncaught-exception");
    popFrame();
  }
}

static u64 curThread;  // the thread that runs; each has its own thread_local objects
static u64 threadLocal(u64 a);
#include "builtins.hpp"

static E fcmp(int pred, E a, E b) {
  auto ord = [&] { return X.mkNot(X.mkFcmp(O_FUNO, a, b)); };
  auto uno = [&] { return X.mkFcmp(O_FUNO, a, b); };
  switch (pred) {
    case LLVMRealPredicateFalse: return X.fls();
    case LLVMRealOEQ: return X.mkFcmp(O_FEQ, a, b);
    case LLVMRealOGT: return X.mkFcmp(O_FLT, b, a);
    case LLVMRealOGE: return X.mkFcmp(O_FLE, b, a);
    case LLVMRealOLT: return X.mkFcmp(O_FLT, a, b);
    case LLVMRealOLE: return X.mkFcmp(O_FLE, a, b);
    case LLVMRealONE: return X.mkAnd(ord(), X.mkNot(X.mkFcmp(O_FEQ, a, b)));
    case LLVMRealORD: return ord();
    case LLVMRealUNO: return uno();
    case LLVMRealUEQ: return X.mkOr(uno(), X.mkFcmp(O_FEQ, a, b));
    case LLVMRealUGT: return X.mkNot(X.mkFcmp(O_FLE, a, b));
    case LLVMRealUGE: return X.mkNot(X.mkFcmp(O_FLT, a, b));
    case LLVMRealULT: return X.mkNot(X.mkFcmp(O_FLE, b, a));
    case LLVMRealULE: return X.mkNot(X.mkFcmp(O_FLT, b, a));
    case LLVMRealUNE: return X.mkNot(X.mkFcmp(O_FEQ, a, b));
    default: return X.tru();
  }
}
static E icmp(int pred, E a, E b) {
  // sign test of a float's bits
  if (X.n[a].op == O_BITS && X.isC(b)) {
    if (pred == LLVMIntSLT && X.cv(b) == 0) return X.realLike() ? X.mkFcmp(O_FLT, X.n[a].a, X.cF(X.n[X.n[a].a].s, 0)) : X.raw(O_SIGNBIT, sBool(), X.n[a].a);
    if (pred == LLVMIntSGT && X.cv(b) == ExprDB::mask(X.n[a].s.w)) return X.mkNot(icmp(LLVMIntSLT, a, X.cst(X.n[b].s, 0)));
  }
  switch (pred) {
    case LLVMIntEQ: return X.mkEq(a, b);
    case LLVMIntNE: return X.mkNot(X.mkEq(a, b));
    case LLVMIntUGT: return X.mkCmp(O_ULT, b, a);
    case LLVMIntUGE: return X.mkCmp(O_ULE, b, a);
    case LLVMIntULT: return X.mkCmp(O_ULT, a, b);
    case LLVMIntULE: return X.mkCmp(O_ULE, a, b);
    case LLVMIntSGT: return X.mkCmp(O_SLT, b, a);
    case LLVMIntSGE: return X.mkCmp(O_SLE, b, a);
    case LLVMIntSLT: return X.mkCmp(O_SLT, a, b);
    case LLVMIntSLE: return X.mkCmp(O_SLE, a, b);
  }
  fatal("icmp");
}
static void doReturn(const std::vector<E>& vals) {
  CInst* call = stack.back().call;
  popFrame();
  if (!call || stack.empty()) throw PathEnd{0};
  for (size_t k = 0; k < vals.size(); k++) put(*call, vals[k], k);
  if (call->op == LLVMInvoke) gotoBlock(call->succ[0]);
}
static std::unordered_map<std::string, int> bIdx;

static void execCall(CInst& c) {
  LLVMValueRef callee = c.callee;
  if (!callee) {
    if (c.off == 1 && c.bfn == 0) {  // inline asm: compiler barriers only
      if (c.op == LLVMInvoke) gotoBlock(c.succ[0]);
      return;
    }
    u64 a = concretize(get(c.ops.back()));
    auto it = fnAt.find(a);
    if (it == fnAt.end()) crash(a == 0 ? "call-null" : "call-invalid");
    callee = it->second;
  }
  CFunc* cf = c.cf;
  if (!cf || cf->fn != callee) {
    cf = nullptr;
    if (!LLVMIsDeclaration(callee)) {
      size_t l;
      std::string nm = LLVMGetValueName2(callee, &l);
      if (!overrideBody(nm)) cf = compileFn(callee);
    }
    c.cf = cf;
  }
  if (cf) {
    std::vector<E> args;
    size_t na = c.byval.size();
    for (size_t a = 0; a < na; a++) {
      if (c.byval[a]) {
        u64 src = concretize(get(c.ops[a]));
        Obj* o = newObj(c.byval[a], K_STACK, "byval");
        copyMem(o->base, src, c.byval[a]);
        args.push_back(X.cst(sBV(64), o->base));
      } else
        for (int k = 0; k < c.ops[a].n; k++) args.push_back(get(c.ops[a], k));
    }
    pushFrame(cf, args, &c);
    return;
  }
  size_t l;
  const char* nm = LLVMGetValueName2(callee, &l);
  bool transferred = false;
  execBuiltin(std::string(nm, l), c, transferred);
  if (!transferred && c.op == LLVMInvoke) gotoBlock(c.succ[0]);
}

static E fpMaskBits(E a, u64 m) {
  // and/xor/or of float bits with sign constants
  (void)a; (void)m;
  return 0;
}

// ---- merging instead of forking
// After a few forks, a branch over side-effect-free blocks that meet again is
// not forked: both sides are computed and the values at the join are chosen by
// the branch conditions.
static void step();
static bool pureInst(const CInst& c) {
  switch (c.op) {
    case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor:
    case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFNeg: case LLVMICmp: case LLVMFCmp: case LLVMZExt: case LLVMSExt:
    case LLVMTrunc: case LLVMFreeze: case LLVMSIToFP: case LLVMUIToFP: return true;
    case LLVMSelect: return c.ty->s[0].fp() || c.ty->s[0].w == 1;
    case LLVMCall: {
      if (!c.callee) return false;
      size_t l;
      std::string nm = LLVMGetValueName2(c.callee, &l);
      return nm.rfind("llvm.fabs", 0) == 0 || nm.rfind("llvm.dbg", 0) == 0 || nm.rfind("llvm.fmuladd", 0) == 0;
    }
    default: return false;
  }
}
static const Region& regionOf(CFunc* f, int b) {
  CBlock& cb = f->blocks[b];
  if (cb.looked) return cb.region;
  cb.looked = true;
  const CInst& br = f->insts[cb.end - 1];
  auto pure = [&](int q) {
    CBlock& x = f->blocks[q];
    if (f->insts[x.end - 1].op != LLVMBr) return false;
    for (int i = x.start; i < x.end - 1; i++) if (!pureInst(f->insts[i])) return false;
    for (auto& p : x.phis) if (p.n != 1) return false;
    return true;
  };
  std::vector<int> cand{br.succ[0], br.succ[1]};
  for (size_t i = 0; i < cand.size() && cand.size() < 24; i++)
    if (pure(cand[i]))
      for (int s : f->insts[f->blocks[cand[i]].end - 1].succ) if (std::find(cand.begin(), cand.end(), s) == cand.end()) cand.push_back(s);
  for (int j : cand) {
    if (j == b) continue;
    // every way from the branch stays in pure blocks, without a cycle, until j
    std::vector<int> order;
    std::map<int, int> mark;
    bool ok = true;
    std::function<void(int)> go = [&](int q) {
      if (!ok || q == j || mark[q] == 2) return;
      if (q == b || mark[q] == 1 || !pure(q) || order.size() > 20) { ok = false; return; }
      mark[q] = 1;
      for (int s : f->insts[f->blocks[q].end - 1].succ) go(s);
      mark[q] = 2;
      order.push_back(q);
    };
    for (int s : br.succ) go(s);
    if (!ok) continue;
    std::reverse(order.begin(), order.end());
    cb.region.join = j;
    cb.region.order = order;
    break;
  }
  return cb.region;
}
static bool mergeBranch(CInst& c) {
  if (nForks < optMergeAfter || optConcrete) return false;
  E cnd = get(c.ops[0]);
  if (X.isC(cnd) || known.count(cnd) || known.count(X.mkNot(cnd)) || c.succ[0] == c.succ[1]) return false;
  size_t depth = stack.size();
  CFunc* fn = stack.back().f;
  int from = stack.back().block;
  const Region& r = regionOf(fn, from);
  if (r.join < 0) return false;
  std::map<std::pair<int, int>, E> edge{{{from, c.succ[0]}, cnd}, {{from, c.succ[1]}, X.mkNot(cnd)}};
  struct In { E guard; const Opnd* o; };
  auto enter = [&](int b, bool join) {
    CBlock& cb = fn->blocks[b];
    std::vector<std::pair<int, E>> in;
    for (auto& [k, g] : edge) if (k.second == b) in.push_back({k.first, g});
    std::vector<E> vals;
    int only = -1;
    auto opOf = [&](CPhi& p, int pb) -> const Opnd& {
      for (auto& [q, o] : p.in) if (q == pb) return o;
      fatal("phi without edge");
    };
    // values that cannot be chosen by a term: decide which way is taken
    for (auto& p : cb.phis)
      for (int k = 0; k < p.n && only < 0; k++) {
        bool differ = false, plain = true;
        E first = get(opOf(p, in[0].first), k);
        for (auto& [pb, g] : in) {
          E v = get(opOf(p, pb), k);
          if (v != first) differ = true;
          Sort s = X.n[v].s;
          if ((join && !(s.fp() || s.w <= 1)) || (s.fp() && X.realLike() && X.isC(v) && !std::isfinite(X.cd(v)))) plain = false;
        }
        if (differ && !plain) {
          only = in.back().first;
          for (size_t q = 0; q + 1 < in.size(); q++) if (decide(in[q].second)) { only = in[q].first; break; }
          if (only == in.back().first) decide(in.back().second);
        }
      }
    for (auto& p : cb.phis)
      for (int k = 0; k < p.n; k++) {
        E v = 0;
        if (only >= 0) v = get(opOf(p, only), k);
        else for (size_t q = in.size(); q-- > 0;) { E w = get(opOf(p, in[q].first), k); v = v ? X.mkIte(in[q].second, w, v) : w; }
        vals.push_back(v);
      }
    size_t q = 0;
    for (auto& p : cb.phis) for (int k = 0; k < p.n; k++) regs[stack.back().rb + p.dst + k] = vals[q++];
    E g = X.fls();
    for (auto& [pb, e] : in) g = X.mkOr(g, e);
    return g;
  };
  for (int b : r.order) {
    E g = enter(b, false);
    CBlock& cb = fn->blocks[b];
    stack.back().block = b;
    stack.back().pc = cb.start;
    while (stack.back().pc < cb.end - 1) {
      step();
      if (stack.size() != depth) fatal("merge left its function");
    }
    CInst& t = fn->insts[cb.end - 1];
    if (t.ops.empty()) edge[{b, t.succ[0]}] = g;
    else {
      E k = get(t.ops[0]);
      if (t.succ[0] == t.succ[1]) edge[{b, t.succ[0]}] = g;
      else { edge[{b, t.succ[0]}] = X.mkAnd(g, k); edge[{b, t.succ[1]}] = X.mkAnd(g, X.mkNot(k)); }
    }
  }
  enter(r.join, true);
  stack.back().block = r.join;
  stack.back().pc = fn->blocks[r.join].start;
  return true;
}
static void step() {
  Frame& f = stack.back();
  CInst& c = f.f->insts[f.pc++];
  if (++instrs > optMaxInstr) {
    obligation("crash", "instruction-limit@" + curFnStack(), X.fls(), false);
    throw PathEnd{3};
  }
  if (c.loc >= 0) locHits[c.loc]++;
  auto bin = [&](Op o) { for (int k = 0; k < c.ndst; k++) put(c, X.mkBV(o, get(c.ops[0], k), get(c.ops[1], k)), k); };
  auto fbin = [&](Op o) { for (int k = 0; k < c.ndst; k++) put(c, X.mkF2(o, get(c.ops[0], k), get(c.ops[1], k)), k); };
  switch (c.op) {
    case LLVMAdd: return bin(O_ADD);
    case LLVMSub: return bin(O_SUB);
    case LLVMMul: return bin(O_MUL);
    case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: {
      E d = get(c.ops[1]);
      E z = X.mkEq(d, X.cst(X.n[d].s, 0));
      if (!X.isC(z) || X.cv(z))
        if (decide(z)) crash("division-by-zero");
      return bin(c.op == LLVMUDiv ? O_UDIV : c.op == LLVMSDiv ? O_SDIV : c.op == LLVMURem ? O_UREM : O_SREM);
    }
    case LLVMShl: return bin(O_SHL);
    case LLVMLShr: return bin(O_LSHR);
    case LLVMAShr: return bin(O_ASHR);
    case LLVMAnd: case LLVMOr: case LLVMXor: {
      for (int k = 0; k < c.ndst; k++) {
        E a = get(c.ops[0], k), b = get(c.ops[1], k);
        if (X.isC(a)) std::swap(a, b);
        if (X.n[a].op == O_BITS && X.isC(b)) {
          int w = X.n[a].s.w;
          u64 sign = 1ull << (w - 1), m = X.cv(b);
          if (c.op == LLVMAnd && m == (ExprDB::mask(w) ^ sign)) { put(c, X.mkBits(X.mkF1(O_FABS, X.n[a].a)), k); continue; }
          if (c.op == LLVMXor && m == sign) { put(c, X.mkBits(X.mkF1(O_FNEG, X.n[a].a)), k); continue; }
          if (c.op == LLVMOr && m == sign) { put(c, X.mkBits(X.mkF1(O_FNEG, X.mkF1(O_FABS, X.n[a].a))), k); continue; }
        }
        put(c, X.mkBV(c.op == LLVMAnd ? O_BAND : c.op == LLVMOr ? O_BOR : O_BXOR, a, b), k);
      }
      return;
    }
    case LLVMFAdd: return fbin(O_FADD);
    case LLVMFSub: return fbin(O_FSUB);
    case LLVMFMul: return fbin(O_FMUL);
    case LLVMFDiv: return fbin(O_FDIV);
    case LLVMFRem: return fbin(O_FREM);
    case LLVMFNeg: for (int k = 0; k < c.ndst; k++) put(c, X.mkF1(O_FNEG, get(c.ops[0], k)), k); return;
    case LLVMICmp: for (int k = 0; k < c.ndst; k++) put(c, icmp(c.pred, get(c.ops[0], k), get(c.ops[1], k)), k); return;
    case LLVMFCmp: for (int k = 0; k < c.ndst; k++) put(c, fcmp(c.pred, get(c.ops[0], k), get(c.ops[1], k)), k); return;
    case LLVMZExt: for (int k = 0; k < c.ndst; k++) put(c, X.mkExt(O_ZEXT, get(c.ops[0], k), c.ty->s[k].w), k); return;
    case LLVMSExt: for (int k = 0; k < c.ndst; k++) put(c, X.mkExt(O_SEXT, get(c.ops[0], k), c.ty->s[k].w), k); return;
    case LLVMTrunc: for (int k = 0; k < c.ndst; k++) put(c, X.mkExtract(get(c.ops[0], k), c.ty->s[k].w - 1, 0), k); return;
    case LLVMPtrToInt: case LLVMIntToPtr: {
      E a = get(c.ops[0]);
      int w = c.ty->s[0].w, aw = X.n[a].s.w;
      return put(c, w < aw ? X.mkExtract(a, w - 1, 0) : X.mkExt(O_ZEXT, a, w));
    }
    case LLVMFreeze: for (int k = 0; k < c.ndst; k++) put(c, get(c.ops[0], k), k); return;
    case LLVMBitCast: case LLVMAddrSpaceCast: {
      if (c.ops[0].n == 1 && c.ndst == 1) {
        E a = get(c.ops[0]);
        Sort s = c.ty->s[0];
        if (X.n[a].s == s) return put(c, a);
        if (s.fp()) return put(c, X.mkFromBits(a, s));
        if (X.n[a].s.fp()) return put(c, X.mkBits(a));
        fatal("bitcast");
      }
      // vector <-> scalar/vector: go through a memory object
      u64 sz = c.ty->size;
      Obj* o = newObj(std::max<u64>(sz, 16), K_STACK, "bitcast");
      u64 off = 0;
      for (int k = 0; k < c.ops[0].n; k++) { E a = get(c.ops[0], k); storeScalar(o->base + off, a); off += X.n[a].s.bytes(); }
      for (int k = 0; k < c.ndst; k++) put(c, loadScalar(o->base + c.ty->off[k], c.ty->s[k]), k);
      return;
    }
    case LLVMSIToFP: for (int k = 0; k < c.ndst; k++) put(c, X.mkIToF(O_SITOFP, get(c.ops[0], k), c.ty->s[k]), k); return;
    case LLVMUIToFP: for (int k = 0; k < c.ndst; k++) put(c, X.mkIToF(O_UITOFP, get(c.ops[0], k), c.ty->s[k]), k); return;
    case LLVMFPToSI: for (int k = 0; k < c.ndst; k++) put(c, X.mkFToI(O_FPTOSI, get(c.ops[0], k), c.ty->s[k].w), k); return;
    case LLVMFPToUI: for (int k = 0; k < c.ndst; k++) put(c, X.mkFToI(O_FPTOUI, get(c.ops[0], k), c.ty->s[k].w), k); return;
    case LLVMFPExt: case LLVMFPTrunc: for (int k = 0; k < c.ndst; k++) put(c, X.mkFcvt(get(c.ops[0], k), c.ty->s[k]), k); return;
    case LLVMSelect: {
      bool vec = c.ops[0].n > 1;
      if (!vec) {
        E cnd = get(c.ops[0]);
        if (!X.isC(cnd)) {
          if (known.count(cnd)) cnd = X.tru();
          else if (known.count(X.mkNot(cnd))) cnd = X.fls();
        }
        if (!X.isC(cnd) && LLVMGetTypeKind(LLVMTypeOf(c.v)) == LLVMPointerTypeKind && get(c.ops[1]) != get(c.ops[2]))
          cnd = decide(cnd) ? X.tru() : X.fls();
        if (!X.isC(cnd) && X.realLike() && c.ty->s[0].fp()) {
          // keep infinities and NaNs off symbolic terms
          for (int q = 1; q <= 2; q++) { E v = get(c.ops[q]); if (X.isC(v) && !std::isfinite(X.cd(v))) { cnd = decide(cnd) ? X.tru() : X.fls(); break; } }
        }
        for (int k = 0; k < c.ndst; k++) put(c, X.mkIte(cnd, get(c.ops[1], k), get(c.ops[2], k)), k);
      } else
        for (int k = 0; k < c.ndst; k++) put(c, X.mkIte(get(c.ops[0], k), get(c.ops[1], k), get(c.ops[2], k)), k);
      return;
    }
    case LLVMGetElementPtr: {
      E a = get(c.ops[0]);
      u64 add = c.gconst;
      E acc = a;
      for (auto& [oi, sc] : c.gscale) {
        E ix = get(c.ops[oi]);
        if (X.n[ix].s.w < 64) ix = X.mkExt(O_SEXT, ix, 64);
        if (X.isC(ix)) add += X.cv(ix) * sc;
        else acc = X.mkBV(O_ADD, acc, X.mkBV(O_MUL, X.cst(sBV(64), sc), ix));
      }
      return put(c, X.mkBV(O_ADD, X.cst(sBV(64), add), acc));
    }
    case LLVMAlloca: {
      u64 n = concretize(get(c.ops[0]));
      Obj* o = newObj(c.size * n, K_STACK, "stack", c.align);
      f.allocas.push_back(o);
      return put(c, X.cst(sBV(64), o->base));
    }
    case LLVMLoad: {
      u64 a = concretize(get(c.ops[0]));
      for (int k = 0; k < c.ndst; k++) put(c, loadScalar(a + c.ty->off[k], c.ty->s[k]), k);
      return;
    }
    case LLVMStore: {
      u64 a = concretize(get(c.ops[1]));
      const Flat& ft = flat(LLVMTypeOf(LLVMGetOperand(c.v, 0)));
      for (int k = 0; k < c.ops[0].n; k++) storeScalar(a + ft.off[k], get(c.ops[0], k));
      return;
    }
    case LLVMAtomicRMW: {
      u64 a = concretize(get(c.ops[0]));
      E v = get(c.ops[1]);
      E old = loadScalar(a, X.n[v].s);
      E nv = 0;
      switch (c.pred) {
        case LLVMAtomicRMWBinOpXchg: nv = v; break;
        case LLVMAtomicRMWBinOpAdd: nv = X.mkBV(O_ADD, old, v); break;
        case LLVMAtomicRMWBinOpSub: nv = X.mkBV(O_SUB, old, v); break;
        case LLVMAtomicRMWBinOpAnd: nv = X.mkBV(O_BAND, old, v); break;
        case LLVMAtomicRMWBinOpOr: nv = X.mkBV(O_BOR, old, v); break;
        case LLVMAtomicRMWBinOpXor: nv = X.mkBV(O_BXOR, old, v); break;
        case LLVMAtomicRMWBinOpMax: nv = X.mkIte(X.mkCmp(O_SLT, old, v), v, old); break;
        case LLVMAtomicRMWBinOpMin: nv = X.mkIte(X.mkCmp(O_SLT, v, old), v, old); break;
        default: fatal("atomicrmw op");
      }
      storeScalar(a, nv);
      return put(c, old);
    }
    case LLVMAtomicCmpXchg: {
      u64 a = concretize(get(c.ops[0]));
      E cmp = get(c.ops[1]), nv = get(c.ops[2]);
      E old = loadScalar(a, X.n[cmp].s);
      E eq = X.mkEq(old, cmp);
      if (decide(eq)) { storeScalar(a, nv); eq = X.tru(); } else eq = X.fls();
      put(c, old, 0);
      return put(c, eq, 1);
    }
    case LLVMFence: return;
    case LLVMExtractValue: for (int k = 0; k < c.ndst; k++) put(c, get(c.ops[0], c.off + k), k); return;
    case LLVMInsertValue: {
      std::vector<E> t;
      for (int k = 0; k < c.ndst; k++) t.push_back(get(c.ops[0], k));
      for (int k = 0; k < c.ops[1].n; k++) t[c.off + k] = get(c.ops[1], k);
      for (int k = 0; k < c.ndst; k++) put(c, t[k], k);
      return;
    }
    case LLVMExtractElement: { u64 ix = concretize(get(c.ops[1])); if ((int)ix >= c.ops[0].n) ix = 0; return put(c, get(c.ops[0], ix)); }
    case LLVMInsertElement: {
      u64 ix = concretize(get(c.ops[2]));
      std::vector<E> t;
      for (int k = 0; k < c.ndst; k++) t.push_back((u64)k == ix ? get(c.ops[1]) : get(c.ops[0], k));
      for (int k = 0; k < c.ndst; k++) put(c, t[k], k);
      return;
    }
    case LLVMShuffleVector: {
      std::vector<E> t;
      for (int m : c.mask) t.push_back(m < 0 ? X.cst(c.ty->s[0], 0) : m < c.ops[0].n ? get(c.ops[0], m) : get(c.ops[1], m - c.ops[0].n));
      for (int k = 0; k < c.ndst; k++) put(c, t[k], k);
      return;
    }
    case LLVMBr:
      if (c.ops.empty()) return gotoBlock(c.succ[0]);
      if (mergeBranch(c)) return;
      return gotoBlock(decide(get(c.ops[0])) ? c.succ[0] : c.succ[1]);
    case LLVMSwitch: {
      E v = get(c.ops[0]);
      for (size_t k = 1; k < c.succ.size(); k++)
        if (decide(X.mkEq(v, X.cst(X.n[v].s, c.cases[k])))) return gotoBlock(c.succ[k]);
      return gotoBlock(c.succ[0]);
    }
    case LLVMRet: {
      std::vector<E> vals;
      if (!c.ops.empty()) for (int k = 0; k < c.ops[0].n; k++) vals.push_back(get(c.ops[0], k));
      return doReturn(vals);
    }
    case LLVMUnreachable: crash("unreachable");
    case LLVMCall: case LLVMInvoke: return execCall(c);
    case LLVMLandingPad:
      put(c, X.cst(sBV(64), curExc), 0);
      return put(c, X.cst(sBV(32), curExcSel), 1);
    case LLVMResume: {
      u64 e = X.cv(get(c.ops[0], 0));
      return unwind(e, true);
    }
    default: {
      char* s = LLVMPrintValueToString(c.v);
      fatal("unsupported instruction %s", s);
    }
  }
}

// ---------------------------------------------------------------- module setup
static u64 fakeSizeOf(LLVMValueRef g) {
  LLVMTypeRef t = LLVMGlobalGetValueType(g);
  u64 s = LLVMTypeIsSized(t) ? LLVMABISizeOfType(TD, t) : 0;
  return s < 256 ? 256 : s;
}
static std::unordered_map<u64, std::vector<u8>> tlsInit;  // by address of the first thread's
static std::map<std::pair<u64, u64>, u64> tlsOf;
static u64 threadLocal(u64 a) {
  if (!curThread) return a;
  Obj* o = findObj(a);
  auto it = o ? tlsInit.find(o->base) : tlsInit.end();
  if (it == tlsInit.end()) return a;
  u64& b = tlsOf[{o->base, curThread}];
  if (!b) {
    Obj* n = newObj(it->second.size(), K_GLOBAL, "thread_local");
    n->d = it->second;
    b = n->base;
  }
  return b + (a - it->first);
}
static void setupGlobals() {
  curThread = 0;
  tlsOf.clear();
  for (Obj* o : objs) delete o;
  objs.clear();
  lastObj = nullptr;
  nextAddr = 0x10000;
  bool first = gaddr.empty();
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    Obj* o = newObj(1, K_FUNC, "fn");
    if (first) { gaddr[f] = o->base; fnAt[o->base] = f; }
  }
  size_t l;
  std::vector<std::pair<LLVMValueRef, Obj*>> init;
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
    std::string nm = LLVMGetValueName2(g, &l);
    bool decl = LLVMIsDeclaration(g);
    u64 sz = decl ? fakeSizeOf(g) : LLVMABISizeOfType(TD, LLVMGlobalGetValueType(g));
    Obj* o = newObj(sz, K_GLOBAL, nm);
    if (decl) o->d.assign(sz, 0);
    if (first) {
      gaddr[g] = o->base;
      if (nm == "_ZTVN10__cxxabiv117__class_type_infoE") tiKind[o->base + 16] = 0;
      if (nm == "_ZTVN10__cxxabiv120__si_class_type_infoE") tiKind[o->base + 16] = 1;
      if (nm == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") tiKind[o->base + 16] = 2;
    }
    if (!decl) init.push_back({g, o});
  }
  if (first)
    for (LLVMValueRef a = LLVMGetFirstGlobalAlias(M); a; a = LLVMGetNextGlobalAlias(a)) {
      LLVMValueRef t = LLVMAliasGetAliasee(a);
      gaddr[a] = X.cv(evalConstScalar(t));
    }
  static std::unordered_map<LLVMValueRef, std::vector<u8>> initBytes;
  for (auto& [g, o] : init) {
    auto it = initBytes.find(g);
    if (it == initBytes.end()) {
      std::vector<E> es;
      LLVMValueRef iv = LLVMGetInitializer(g);
      o->d.assign(o->size, 0);
      if (iv) {
        const Flat& ft = flat(LLVMGlobalGetValueType(g));
        evalConst(iv, es);
        for (size_t k = 0; k < es.size(); k++) storeScalar(o->base + ft.off[k], es[k]);
      }
      initBytes[g] = o->d;
    } else o->d = it->second;
    if (LLVMIsThreadLocal(g)) tlsInit[o->base] = o->d;
    o->ro = LLVMIsGlobalConstant(g);
  }
  nGlobalObjs = objs.size();
}
static void runFn(LLVMValueRef f) {
  CFunc* cf = compileFn(f);
  std::vector<E> args;
  pushFrame(cf, args, nullptr);
  size_t depth = stack.size();
  (void)depth;
  try {
    for (;;) step();
  } catch (PathEnd& p) {
    if (p.why != 0) throw;
  }
}

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--mode") { auto m = nx(); X.mode = m == "fp" ? M_FP : m == "delta" ? M_DELTA : M_REAL; }
    else if (a == "--out") optOut = nx();
    else if (a == "--entry") optEntry = nx();
    else if (a == "--z3") optZ3 = nx();
    else if (a == "--branch-ms") optBranchMs = stoi(nx());
    else if (a == "--stage-ms") optStageMs = stoi(nx());
    else if (a == "--crash-ms") optCrashMs = stoi(nx());
    else if (a == "--max-instr") optMaxInstr = stoull(nx());
    else if (a == "--max-paths") optMaxPaths = stoull(nx());
    else if (a == "--max-time") optMaxTime = stod(nx());
    else if (a == "--merge-after") optMergeAfter = atoi(nx().c_str());
    else if (a == "--concrete") { optConcrete = true; optValues = nx(); }
    else if (a == "-v") optVerbose = true;
    else bc = a;
  }
  if (optConcrete) loadValues(optValues);
  mkdir(optOut.c_str(), 0777);
  CTX = LLVMContextCreate();
  LLVMMemoryBufferRef mb;
  char* err = nullptr;
  if (LLVMCreateMemoryBufferWithContentsOfFile(bc.c_str(), &mb, &err)) fatal("read %s: %s", bc.c_str(), err);
  if (LLVMParseIRInContext(CTX, mb, &M, &err)) fatal("parse: %s", err);
  TD = LLVMCreateTargetData(LLVMGetDataLayoutStr(M));
  manifest = fopen((optOut + "/obligations.jsonl").c_str(), "w");
  double t0 = now();
  bool truncated = false;
  std::string truncWhy;
  optDeadline = t0 + optMaxTime;
  work.push_back({});
  LLVMValueRef entry = LLVMGetNamedFunction(M, optEntry.c_str());
  if (!entry) fatal("no entry %s", optEntry.c_str());
  while (!work.empty()) {
    if (nPaths >= optMaxPaths || now() - t0 > optMaxTime) { truncated = true; truncWhy = nPaths >= optMaxPaths ? "paths" : "time"; break; }
    prefix = work.back();
    work.pop_back();
    trail.clear();
    dpos = 0;
    nForks = 0;
    pc.clear();
    known.clear();
    pool.clear();
    hints.clear();
    occ.clear();
    choices.clear();
    inputs.clear();
    stack.clear();
    regs.clear();
    excs.clear();
    caught.clear();
    inflight.clear();
    instrs = 0;
    pathId = ++nPaths;
    resetBuiltins();
    setupGlobals();
    try {
      // static constructors
      LLVMValueRef ct = LLVMGetNamedGlobal(M, "llvm.global_ctors");
      if (ct && LLVMGetInitializer(ct) && LLVMGetValueKind(LLVMGetInitializer(ct)) == LLVMConstantArrayValueKind) {
        LLVMValueRef arr = LLVMGetInitializer(ct);
        for (int k = 0; k < LLVMGetNumOperands(arr); k++) runFn(LLVMGetOperand(LLVMGetOperand(arr, k), 1));
      }
      runFn(entry);
      if (optVerbose) fprintf(stderr, "path %llu done, %llu instrs, %zu pc\n", (unsigned long long)pathId, (unsigned long long)instrs, pc.size());
    } catch (PathEnd& p) {
      if (p.why == 1) nInfeasible++;
      if (p.why == 2) nCrashPaths++;
      if (p.why == 4) { truncated = true; truncWhy = "time"; break; }
    }
    totalInstrs += instrs;
  }
  fclose(manifest);
  FILE* f = fopen((optOut + "/stats.json").c_str(), "w");
  fprintf(f, "{\"paths\":%llu,\"infeasible\":%llu,\"crash_paths\":%llu,\"instructions\":%llu,\"truncated\":%s,\"trunc_why\":\"%s\",\"pending\":%zu,", (unsigned long long)nPaths, (unsigned long long)nInfeasible, (unsigned long long)nCrashPaths, (unsigned long long)totalInstrs, truncated ? "true" : "false", truncWhy.c_str(), work.size());
  fprintf(f, "\"obligations\":%llu,\"trivial\":%llu,\"inline_unsat\":%llu,\"dumped\":%llu,\"queries\":%llu,\"unknown\":%llu,\"solver_time\":%.3f,\"inline_time\":%.3f,\"wall\":%.3f,\"nodes\":%zu,", (unsigned long long)obTotal, (unsigned long long)obTrivial, (unsigned long long)obInline, (unsigned long long)obDumped, (unsigned long long)Z.queries, (unsigned long long)Z.unknowns, Z.time, inlineTime, now() - t0, X.n.size());
  fprintf(f, "\"labels\":{");
  bool firstL = true;
  for (auto& [k, v] : obByLabel) { fprintf(f, "%s\"%s\":%llu", firstL ? "" : ",", jesc(k).c_str(), (unsigned long long)v); firstL = false; }
  fprintf(f, "},\"reach\":{");
  firstL = true;
  for (auto& [k, v] : reached) { fprintf(f, "%s\"%s\":%llu", firstL ? "" : ",", jesc(k).c_str(), (unsigned long long)v); firstL = false; }
  fprintf(f, "},\"lines\":[");
  firstL = true;
  for (size_t k = 0; k < locs.size(); k++)
    if (locHits[k] && locs[k].file.find("/c++/") == std::string::npos) {
      fprintf(f, "%s[\"%s\",\"%s\",%u]", firstL ? "" : ",", jesc(locs[k].file).c_str(), jesc(locs[k].fn).c_str(), locs[k].line);
      firstL = false;
    }
  fprintf(f, "]}\n");
  fclose(f);
  Z.stop();
  return 0;
}
