// SMT-LIB 2 emission of expression nodes, per numeric mode.
#pragma once
#include "expr.hpp"
#include <functional>

struct Smt {
  ExprDB& db;
  explicit Smt(ExprDB& d) : db(d) {}

  std::string sortStr(Sort s) const {
    switch (s.k) {
      case S_BOOL: return "Bool";
      case S_BV: return "(_ BitVec " + std::to_string(s.w) + ")";
      case S_F64: return db.mode == M_FP ? "(_ FloatingPoint 11 53)" : "Real";
      case S_F32: return db.mode == M_FP ? "(_ FloatingPoint 8 24)" : "Real";
    }
    return "";
  }
  static std::string realConst(double d) {
    // exact decimal-free rational of a finite double
    if (d == 0) return "0.0";
    bool neg = d < 0;
    int ex;
    double m = std::frexp(std::fabs(d), &ex);
    u64 mi = (u64)std::ldexp(m, 53);
    ex -= 53;
    while (mi && !(mi & 1)) { mi >>= 1; ex++; }
    std::string s;
    auto pow2 = [](int k) {
      // decimal string of 2^k
      std::vector<int> dg{1};
      for (int i = 0; i < k; i++) {
        int c = 0;
        for (auto& x : dg) { x = x * 2 + c; c = x / 10; x %= 10; }
        if (c) dg.push_back(c);
      }
      std::string r;
      for (auto it = dg.rbegin(); it != dg.rend(); ++it) r += (char)('0' + *it);
      return r;
    };
    std::string num = std::to_string(mi);
    if (ex == 0) s = num + ".0";
    else if (ex > 0) s = "(* " + num + ".0 " + pow2(ex) + ".0)";
    else s = "(/ " + num + ".0 " + pow2(-ex) + ".0)";
    return neg ? "(- " + s + ")" : s;
  }
  std::string constStr(E e) const {
    const Node& x = db.n[e];
    switch (x.s.k) {
      case S_BOOL: return x.k ? "true" : "false";
      case S_BV: {
        if (x.s.w > 64) {
          char b[80];
          std::string r = "(concat ";
          snprintf(b, sizeof b, "(_ bv%llu %d)", (unsigned long long)x.k2, x.s.w - 64);
          r += b;
          snprintf(b, sizeof b, " (_ bv%llu 64))", (unsigned long long)x.k);
          return r + b;
        }
        char b[64];
        snprintf(b, sizeof b, "(_ bv%llu %d)", (unsigned long long)x.k, x.s.w);
        return b;
      }
      case S_F64:
        if (db.mode == M_FP) {
          char b[128];
          std::string m;
          for (int i = 51; i >= 0; i--) m += ((x.k >> i) & 1) ? '1' : '0';
          std::string ex;
          for (int i = 62; i >= 52; i--) ex += ((x.k >> i) & 1) ? '1' : '0';
          snprintf(b, sizeof b, "(fp #b%d #b%s #b%s)", (int)(x.k >> 63), ex.c_str(), m.c_str());
          return b;
        }
        return realConst(db.cd(e));
      case S_F32:
        if (db.mode == M_FP) {
          char b[128];
          std::string m, ex;
          for (int i = 22; i >= 0; i--) m += ((x.k >> i) & 1) ? '1' : '0';
          for (int i = 30; i >= 23; i--) ex += ((x.k >> i) & 1) ? '1' : '0';
          snprintf(b, sizeof b, "(fp #b%d #b%s #b%s)", (int)((x.k >> 31) & 1), ex.c_str(), m.c_str());
          return b;
        }
        return realConst(db.cd(e));
    }
    return "";
  }
  std::string ref(E e) const {
    const Node& x = db.n[e];
    if (x.op == O_CONST) return constStr(e);
    if (x.op == O_SYM) return "|" + db.names[x.k] + "|";
    if (isTrig(e)) return x.op == O_SIN ? nS(x.a) : nC(x.a);
    return "n" + std::to_string(e);
  }
  // Children in the definition/axiom sense.
  void kids(E e, E out[3], int& c) const {
    const Node& x = db.n[e];
    c = 0;
    if (x.op == O_CONST || x.op == O_SYM) return;
    if (x.a) out[c++] = x.a;
    if (x.b) out[c++] = x.b;
    if (x.c) out[c++] = x.c;
  }
  static std::string nS(E a) { return "sin" + std::to_string(a); }
  static std::string nC(E a) { return "cos" + std::to_string(a); }

  // Definition text of a node (may declare auxiliary constants), and axioms.
  // decl: emitted once globally.  ax: must hold whenever the node is in the cone.
  void def(E e, std::string& decl, std::vector<std::string>& ax) const {
    const Node& x = db.n[e];
    auto R = [&](E k) { return ref(k); };
    std::string id = "n" + std::to_string(e);
    auto D = [&](const std::string& body) { decl += "(define-fun " + id + " () " + sortStr(x.s) + " " + body + ")\n"; };
    auto DC = [&](const std::string& nm, const std::string& so) { decl += "(declare-const " + nm + " " + so + ")\n"; };
    bool fp = db.mode == M_FP;
    bool F = x.s.fp();
    auto opn = [&](const char* o) { D("(" + std::string(o) + " " + R(x.a) + (x.b ? " " + R(x.b) : "") + (x.c ? " " + R(x.c) : "") + ")"); };
    switch (x.op) {
      case O_CONST: return;
      case O_SYM: decl += "(declare-const " + R(e) + " " + sortStr(x.s) + ")\n"; return;
      case O_ADD: return opn("bvadd");
      case O_SUB: return opn("bvsub");
      case O_MUL: return opn("bvmul");
      case O_UDIV: return opn("bvudiv");
      case O_SDIV: return opn("bvsdiv");
      case O_UREM: return opn("bvurem");
      case O_SREM: return opn("bvsrem");
      case O_SHL: return opn("bvshl");
      case O_LSHR: return opn("bvlshr");
      case O_ASHR: return opn("bvashr");
      case O_BAND: return opn("bvand");
      case O_BOR: return opn("bvor");
      case O_BXOR: return opn("bvxor");
      case O_CONCAT: return opn("concat");
      case O_EXTRACT:
        return D("((_ extract " + std::to_string(x.k >> 16) + " " + std::to_string(x.k & 0xffff) + ") " + R(x.a) + ")");
      case O_ZEXT: return D("((_ zero_extend " + std::to_string(x.s.w - db.n[x.a].s.w) + ") " + R(x.a) + ")");
      case O_SEXT: return D("((_ sign_extend " + std::to_string(x.s.w - db.n[x.a].s.w) + ") " + R(x.a) + ")");
      case O_NOT: return opn("not");
      case O_AND: return opn("and");
      case O_OR: return opn("or");
      case O_XOR: return opn("xor");
      case O_EQ: return opn("=");
      case O_ULT: return opn("bvult");
      case O_ULE: return opn("bvule");
      case O_SLT: return opn("bvslt");
      case O_SLE: return opn("bvsle");
      case O_ITE: return opn("ite");
      default: break;
    }
    if (fp) {
      auto rm = [&](const char* o) { D("(" + std::string(o) + " RNE " + R(x.a) + (x.b ? " " + R(x.b) : "") + (x.c ? " " + R(x.c) : "") + ")"); };
      std::string eb = x.s.k == S_F32 ? "8 24" : "11 53";
      switch (x.op) {
        case O_FADD: return rm("fp.add");
        case O_FSUB: return rm("fp.sub");
        case O_FMUL: return rm("fp.mul");
        case O_FDIV: return rm("fp.div");
        case O_FSQRT: return rm("fp.sqrt");
        case O_FMA: return rm("fp.fma");
        case O_FNEG: return opn("fp.neg");
        case O_FABS: return opn("fp.abs");
        case O_FMIN: return opn("fp.min");
        case O_FMAX: return opn("fp.max");
        case O_FTRUNC: return D("(fp.roundToIntegral RTZ " + R(x.a) + ")");
        case O_FFLOOR: return D("(fp.roundToIntegral RTN " + R(x.a) + ")");
        case O_FCEIL: return D("(fp.roundToIntegral RTP " + R(x.a) + ")");
        case O_FROUND: return D("(fp.roundToIntegral RNA " + R(x.a) + ")");
        case O_FRINT: return D("(fp.roundToIntegral RNE " + R(x.a) + ")");
        case O_FEQ: return opn("fp.eq");
        case O_FLT: return opn("fp.lt");
        case O_FLE: return opn("fp.leq");
        case O_FUNO: return D("(or (fp.isNaN " + R(x.a) + ") (fp.isNaN " + R(x.b) + "))");
        case O_FSAME: return D("(= " + R(x.a) + " " + R(x.b) + ")");
        case O_FINITE: return D("(not (or (fp.isNaN " + R(x.a) + ") (fp.isInfinite " + R(x.a) + ")))");
        case O_SIGNBIT: return D("(fp.isNegative " + R(x.a) + ")");
        case O_COPYSIGN: return D("(ite (= (fp.isNegative " + R(x.a) + ") (fp.isNegative " + R(x.b) + ")) " + R(x.a) + " (fp.neg " + R(x.a) + "))");
        case O_SITOFP: return D("((_ to_fp " + eb + ") RNE " + R(x.a) + ")");
        case O_UITOFP: return D("((_ to_fp_unsigned " + eb + ") RNE " + R(x.a) + ")");
        case O_FPTOSI: return D("((_ fp.to_sbv " + std::to_string(x.s.w) + ") RTZ " + R(x.a) + ")");
        case O_FPTOUI: return D("((_ fp.to_ubv " + std::to_string(x.s.w) + ") RTZ " + R(x.a) + ")");
        case O_FPEXT: case O_FPTRUNC: return D("((_ to_fp " + eb + ") RNE " + R(x.a) + ")");
        case O_FROMBITS: return D("((_ to_fp " + eb + ") " + R(x.a) + ")");
        case O_BITS:
          DC(id, sortStr(x.s));
          ax.push_back("(= ((_ to_fp " + std::string(x.s.w == 32 ? "8 24" : "11 53") + ") " + id + ") " + R(x.a) + ")");
          return;
        case O_FREM: case O_SIN: case O_COS: case O_ATAN2: case O_HYPOT: case O_UF1: case O_UF2: {
          DC(id, sortStr(x.s));  // unconstrained; congruence is by hash-consing
          if (x.op == O_SIN || x.op == O_COS)
            ax.push_back("(or (fp.isNaN " + id + ") (and (fp.leq ((_ to_fp 11 53) RNE (- 1.0)) " + id + ") (fp.leq " + id + " ((_ to_fp 11 53) RNE 1.0))))");
          return;
        }
        default: break;
      }
      fprintf(stderr, "symx: cannot translate op %d in fp mode\n", x.op);
      exit(3);
    }
    // ---- real-like ----
    auto bad = [&](E k) {
      return db.isC(k) && db.n[k].s.fp() && !std::isfinite(db.cd(k));
    };
    if ((x.a && bad(x.a)) || (x.b && bad(x.b))) {
      // an operation on inf/nan that did not fold: arbitrary result
      DC(id, sortStr(x.s));
      return;
    }
    auto rounded = [&](const std::string& exact, const std::string& extra, bool denorm) {
      DC(id, "Real");
      std::string ex = "ex" + std::to_string(e);
      decl += "(define-fun " + ex + " () Real " + exact + ")\n";
      static const std::string U = "(/ 1.0 9007199254740992.0)";
      std::string bp = denorm ? "(+ (* " + U + " " + ex + ") tiny)" : "(* " + U + " " + ex + ")";
      std::string bn = denorm ? "(+ (* " + U + " (- " + ex + ")) tiny)" : "(* " + U + " (- " + ex + "))";
      ax.push_back("(=> (>= " + ex + " 0.0) (and (>= " + id + " 0.0) (<= (- " + id + " " + ex + ") " + bp + ") (<= (- " + ex + " " + id + ") " + bp + ")))");
      ax.push_back("(=> (<= " + ex + " 0.0) (and (<= " + id + " 0.0) (<= (- " + id + " " + ex + ") " + bn + ") (<= (- " + ex + " " + id + ") " + bn + ")))");
      (void)extra;
    };
    auto pow2 = [&](E k) {
      if (!db.isC(k)) return false;
      double d = std::fabs(db.cd(k));
      if (d == 0) return false;
      int ex;
      return std::frexp(d, &ex) == 0.5;
    };
    bool dl = db.mode == M_DELTA;
    switch (x.op) {
      case O_FADD: case O_FSUB: {
        bool add = x.op == O_FADD;
        std::string b = std::string("(") + (add ? "+ " : "- ") + R(x.a) + " " + R(x.b) + ")";
        if (!dl) return D(b);
        rounded(b, "", false);
        // rounding is monotone and exact on representable operands
        const char *up = add ? ">=" : "<=", *dn = add ? "<=" : ">=";
        ax.push_back(std::string("(=> (") + up + " " + R(x.b) + " 0.0) (>= " + id + " " + R(x.a) + "))");
        ax.push_back(std::string("(=> (") + dn + " " + R(x.b) + " 0.0) (<= " + id + " " + R(x.a) + "))");
        if (add) {
          ax.push_back("(=> (>= " + R(x.a) + " 0.0) (>= " + id + " " + R(x.b) + "))");
          ax.push_back("(=> (<= " + R(x.a) + " 0.0) (<= " + id + " " + R(x.b) + "))");
        }
        return;
      }
      case O_FMUL: {
        std::string b = "(* " + R(x.a) + " " + R(x.b) + ")";
        return dl && !pow2(x.a) && !pow2(x.b) ? rounded(b, "", true) : D(b);
      }
      case O_FDIV: {
        if (db.isC(x.b) && db.cd(x.b) != 0) {
          std::string b = "(/ " + R(x.a) + " " + R(x.b) + ")";
          return dl && !pow2(x.b) ? rounded(b, "", true) : D(b);
        }
        if (dl) {
          std::string q = "q" + std::to_string(e);
          decl += "(declare-const " + q + " Real)\n";
          ax.push_back("(=> (not (= " + R(x.b) + " 0.0)) (= (* " + q + " " + R(x.b) + ") " + R(x.a) + "))");
          return rounded(q, "", true);
        }
        DC(id, "Real");
        ax.push_back("(=> (not (= " + R(x.b) + " 0.0)) (= (* " + id + " " + R(x.b) + ") " + R(x.a) + "))");
        return;
      }
      case O_FMA: return D("(+ (* " + R(x.a) + " " + R(x.b) + ") " + R(x.c) + ")");
      case O_FNEG: return D("(- " + R(x.a) + ")");
      case O_FABS: return D("(ite (< " + R(x.a) + " 0.0) (- " + R(x.a) + ") " + R(x.a) + ")");
      case O_FSQRT: {
        std::string r = dl ? "q" + std::to_string(e) : id;
        DC(r, "Real");
        ax.push_back("(=> (>= " + R(x.a) + " 0.0) (and (>= " + r + " 0.0) (= (* " + r + " " + r + ") " + R(x.a) + ")))");
        if (dl) rounded(r, "", false);
        return;
      }
      case O_HYPOT: {
        std::string r = dl ? "q" + std::to_string(e) : id;
        DC(r, "Real");
        ax.push_back("(>= " + r + " 0.0)");
        ax.push_back("(= (* " + r + " " + r + ") (+ (* " + R(x.a) + " " + R(x.a) + ") (* " + R(x.b) + " " + R(x.b) + ")))");
        if (dl) rounded(r, "", false);
        return;
      }
      case O_FMIN: return D("(ite (< " + R(x.a) + " " + R(x.b) + ") " + R(x.a) + " " + R(x.b) + ")");
      case O_FMAX: return D("(ite (< " + R(x.a) + " " + R(x.b) + ") " + R(x.b) + " " + R(x.a) + ")");
      case O_FTRUNC: case O_FFLOOR: case O_FCEIL: case O_FROUND: {
        std::string k = "k" + std::to_string(e), a = R(x.a);
        DC(k, "Int");
        D("(to_real " + k + ")");
        std::string lo = "(and (<= " + id + " X) (< X (+ " + id + " 1.0)))", hi = "(and (>= " + id + " X) (> X (- " + id + " 1.0)))";
        auto sub = [](std::string t, const std::string& v) {
          for (size_t p = 0; (p = t.find('X', p)) != std::string::npos; p += v.size()) t.replace(p, 1, v);
          return t;
        };
        if (x.op == O_FFLOOR) ax.push_back(sub(lo, a));
        else if (x.op == O_FCEIL) ax.push_back(sub(hi, a));
        else {
          bool rd = x.op == O_FROUND;
          ax.push_back("(=> (>= " + a + " 0.0) " + sub(lo, rd ? "(+ " + a + " 0.5)" : a) + ")");
          ax.push_back("(=> (< " + a + " 0.0) " + sub(hi, rd ? "(- " + a + " 0.5)" : a) + ")");
        }
        return;
      }
      case O_FRINT: {
        DC(id, "Real");
        DC("k" + std::to_string(e), "Int");
        ax.push_back("(= " + id + " (to_real k" + std::to_string(e) + "))");
        ax.push_back("(<= (- " + id + " " + R(x.a) + ") 0.5)");
        ax.push_back("(<= (- " + R(x.a) + " " + id + ") 0.5)");
        return;
      }
      case O_FREM: {
        // r = a - b*trunc(a/b), |r| < |b|, sign of a (exact in IEEE as well)
        std::string k = "k" + std::to_string(e);
        DC(id, "Real");
        DC(k, "Int");
        if (db.isC(x.b)) ax.push_back("(= " + R(x.a) + " (+ " + id + " (* " + R(x.b) + " (to_real " + k + "))))");
        else ax.push_back("(=> (not (= " + R(x.b) + " 0.0)) (= " + R(x.a) + " (+ " + id + " (* " + R(x.b) + " (to_real " + k + ")))))");
        ax.push_back("(=> (not (= " + R(x.b) + " 0.0)) (< (* " + id + " " + id + ") (* " + R(x.b) + " " + R(x.b) + ")))");
        ax.push_back("(=> (>= " + R(x.a) + " 0.0) (>= " + id + " 0.0))");
        ax.push_back("(=> (<= " + R(x.a) + " 0.0) (<= " + id + " 0.0))");
        return;
      }
      case O_COPYSIGN: {
        std::string m = "(ite (< " + R(x.a) + " 0.0) (- " + R(x.a) + ") " + R(x.a) + ")";
        return D("(ite (< " + R(x.b) + " 0.0) (- " + m + ") " + m + ")");
      }
      case O_FEQ: return opn("=");
      case O_FLT: return opn("<");
      case O_FLE: return opn("<=");
      case O_FUNO: return D("false");
      case O_FSAME: return opn("=");
      case O_FINITE: return D("true");
      case O_SIGNBIT: return D("(< " + R(x.a) + " 0.0)");
      case O_SITOFP: case O_UITOFP: {
        std::string nat = "(to_real (bv2nat " + R(x.a) + "))";
        int w = db.n[x.a].s.w;
        if (x.op == O_UITOFP) return D(nat);
        return D("(- " + nat + " (ite (= ((_ extract " + std::to_string(w - 1) + " " + std::to_string(w - 1) + ") " + R(x.a) + ") #b1) " + realConst(std::ldexp(1.0, w)) + " 0.0))");
      }
      case O_FPTOSI: case O_FPTOUI: {
        std::string t = "(ite (>= " + R(x.a) + " 0.0) (to_int " + R(x.a) + ") (- (to_int (- " + R(x.a) + "))))";
        return D("((_ int2bv " + std::to_string(x.s.w) + ") " + t + ")");
      }
      case O_FPEXT: return D(R(x.a));
      case O_FPTRUNC: {  // to float: within half an ulp of its 24 bits
        std::string a = R(x.a), u = "(/ 1.0 16777216.0)";
        DC(id, "Real");
        ax.push_back("(=> (>= " + a + " 0.0) (and (>= " + id + " 0.0) (<= (- " + id + " " + a + ") (* " + u + " " + a + ")) (<= (- " + a + " " + id + ") (* " + u + " " + a + "))))");
        ax.push_back("(=> (<= " + a + " 0.0) (and (<= " + id + " 0.0) (<= (- " + id + " " + a + ") (* " + u + " (- " + a + "))) (<= (- " + a + " " + id + ") (* " + u + " (- " + a + ")))))");
        return;
      }
      case O_SIN: return;  // declared by the argument
      case O_COS: return;
      case O_ATAN2: {
        // t in [-pi, pi], r cos t = x, r sin t = y  (trig of t is declared via trigOf)
        std::string t = id, y = R(x.a), c = R(x.b), r = "r" + std::to_string(e);
        DC(t, "Real");
        DC(r, "Real");
        decl += "(declare-const " + nS(e) + " Real)\n(declare-const " + nC(e) + " Real)\n";
        ax.push_back("(= (+ (* " + nS(e) + " " + nS(e) + ") (* " + nC(e) + " " + nC(e) + ")) 1.0)");
        ax.push_back("(>= " + r + " 0.0)");
        ax.push_back("(= (* " + r + " " + r + ") (+ (* " + y + " " + y + ") (* " + c + " " + c + ")))");
        if (db.n[x.a].op == O_SIN && db.n[x.b].op == O_COS && db.n[x.a].a == db.n[x.b].a && db.n[db.n[x.a].a].op != O_SYM) {
          // the angle itself up to whole turns
          std::string k = "k" + std::to_string(e);
          DC(k, "Int");
          ax.push_back("(= " + t + " (- " + R(db.n[x.a].a) + " (* (/ 884279719003555.0 140737488355328.0) (to_real " + k + "))))");
        }
        ax.push_back("(= " + c + " (* " + r + " " + nC(e) + "))");
        ax.push_back("(= " + y + " (* " + r + " " + nS(e) + "))");
        ax.push_back("(and (<= " + t + " 3.1415926535897936) (>= " + t + " (- 3.1415926535897936)))");
        ax.push_back("(=> (> " + y + " 0.0) (> " + t + " 0.0))");
        ax.push_back("(=> (< " + y + " 0.0) (< " + t + " 0.0))");
        ax.push_back("(=> (and (= " + y + " 0.0) (>= " + c + " 0.0)) (= " + t + " 0.0))");
        ax.push_back("(=> (> " + c + " 0.0) (and (< " + t + " 1.5707963267948968) (> " + t + " (- 1.5707963267948968))))");
        ax.push_back("(=> (< " + c + " 0.0) (or (> " + t + " 1.5707963267948965) (< " + t + " (- 1.5707963267948965))))");
        ax.push_back("(=> (and (= " + y + " 0.0) (< " + c + " 0.0)) (or (>= " + t + " 3.141592653589793) (<= " + t + " (- 3.141592653589793))))");
        return;
      }
      case O_UF1: case O_UF2: DC(id, "Real"); return;
      case O_FROMBITS: case O_BITS: DC(id, sortStr(x.s)); return;  // opaque
      default: break;
    }
    (void)F;
    fprintf(stderr, "symx: cannot translate op %d in real mode\n", x.op);
    exit(3);
  }
  static const char* prelude() { return "(define-fun tiny () Real (/ 1.0 1267650600228229401496703205376.0))\n"; }
  // In real-like modes SIN/COS nodes are references to per-argument constants.
  bool isTrig(E e) const { return db.mode != M_FP && (db.n[e].op == O_SIN || db.n[e].op == O_COS); }
  void trigDecl(E arg, std::string& decl, std::vector<std::string>& ax) const {
    if (db.n[arg].op == O_ATAN2) return;  // declared with atan2
    decl += "(declare-const " + nS(arg) + " Real)\n(declare-const " + nC(arg) + " Real)\n";
    ax.push_back("(= (+ (* " + nS(arg) + " " + nS(arg) + ") (* " + nC(arg) + " " + nC(arg) + ")) 1.0)");
  }
};
