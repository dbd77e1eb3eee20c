// Hash-consed expression DAG and its translation to SMT-LIB 2.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using u128 = unsigned __int128;
using E = u32;  // expression id, 0 = none

enum SortKind : u8 { S_BOOL, S_BV, S_F64, S_F32 };
struct Sort {
  SortKind k;
  uint16_t w;
  bool operator==(const Sort& o) const { return k == o.k && w == o.w; }
  bool fp() const { return k == S_F64 || k == S_F32; }
  int bytes() const { return k == S_BOOL ? 1 : (w + 7) / 8; }
};
inline Sort sBool() { return {S_BOOL, 1}; }
inline Sort sBV(int w) { return w == 1 ? sBool() : Sort{S_BV, (uint16_t)w}; }
inline Sort sF64() { return {S_F64, 64}; }
inline Sort sF32() { return {S_F32, 32}; }

enum Op : uint16_t {
  O_CONST, O_SYM,
  // bit-vectors
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_BAND, O_BOR, O_BXOR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // bool
  O_NOT, O_AND, O_OR, O_XOR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  // floating point
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FABS, O_FSQRT, O_FTRUNC,
  O_FFLOOR, O_FCEIL, O_FROUND, O_FRINT, O_FMIN, O_FMAX, O_COPYSIGN, O_FMA,
  O_FEQ, O_FLT, O_FLE, O_FUNO, O_FSAME, O_FINITE, O_SIGNBIT,
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC, O_BITS,
  O_FROMBITS,
  // transcendental / uninterpreted (payload = name index)
  O_SIN, O_COS, O_ATAN2, O_HYPOT, O_UF1, O_UF2,
};

enum Mode { M_FP, M_REAL, M_DELTA };

struct Node {
  Op op;
  Sort s;
  E a, b, c;
  u64 k, k2;  // constant bits / payload
};

struct ExprDB {
  Mode mode = M_REAL;
  std::vector<Node> n;
  struct H {
    size_t operator()(const Node& x) const {
      u64 h = x.op * 0x9E3779B97F4A7C15ull;
      auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
      mix(x.s.k * 1000 + x.s.w); mix(x.a); mix(x.b); mix(x.c); mix(x.k); mix(x.k2);
      return h;
    }
  };
  struct Eq {
    bool operator()(const Node& x, const Node& y) const {
      return x.op == y.op && x.s == y.s && x.a == y.a && x.b == y.b && x.c == y.c && x.k == y.k && x.k2 == y.k2;
    }
  };
  std::unordered_map<Node, E, H, Eq> tab;
  std::vector<std::string> names;
  std::unordered_map<std::string, u32> nameIdx;

  ExprDB() { n.push_back({}); }
  u32 name(const std::string& s) {
    auto it = nameIdx.find(s);
    if (it != nameIdx.end()) return it->second;
    names.push_back(s);
    return nameIdx[s] = names.size() - 1;
  }
  E raw(Op op, Sort s, E a = 0, E b = 0, E c = 0, u64 k = 0, u64 k2 = 0) {
    Node x{op, s, a, b, c, k, k2};
    auto it = tab.find(x);
    if (it != tab.end()) return it->second;
    E id = n.size();
    n.push_back(x);
    tab.emplace(x, id);
    return id;
  }
  bool isC(E e) const { return n[e].op == O_CONST; }
  u64 cv(E e) const { return n[e].k; }
  double cd(E e) const {
    if (n[e].s.k == S_F32) { float f; u32 b = n[e].k; memcpy(&f, &b, 4); return f; }
    double d; memcpy(&d, &n[e].k, 8); return d;
  }
  static u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
  E cst(Sort s, u64 v, u64 hi = 0) {
    if (s.k == S_BOOL) v &= 1;
    else v &= mask(s.w);
    return raw(O_CONST, s, 0, 0, 0, v, s.w > 64 ? hi : 0);
  }
  E cF(Sort s, double d) {
    if (s.k == S_F32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return cst(s, b); }
    u64 b; memcpy(&b, &d, 8); return cst(s, b);
  }
  E tru() { return cst(sBool(), 1); }
  E fls() { return cst(sBool(), 0); }
  E sym(const std::string& nm, Sort s) { return raw(O_SYM, s, 0, 0, 0, name(nm)); }

  // ---- constructors with folding ----
  E mkNot(E a) {
    if (isC(a)) return cv(a) ? fls() : tru();
    if (n[a].op == O_NOT) return n[a].a;
    return raw(O_NOT, sBool(), a);
  }
  E mkAnd(E a, E b) {
    if (isC(a)) return cv(a) ? b : a;
    if (isC(b)) return cv(b) ? a : b;
    if (a == b) return a;
    if (n[a].op == O_NOT && n[a].a == b) return fls();
    if (n[b].op == O_NOT && n[b].a == a) return fls();
    if (a > b) std::swap(a, b);
    return raw(O_AND, sBool(), a, b);
  }
  E mkOr(E a, E b) {
    if (isC(a)) return cv(a) ? a : b;
    if (isC(b)) return cv(b) ? b : a;
    if (a == b) return a;
    if (n[a].op == O_NOT && n[a].a == b) return tru();
    if (n[b].op == O_NOT && n[b].a == a) return tru();
    if (a > b) std::swap(a, b);
    return raw(O_OR, sBool(), a, b);
  }
  E mkXor(E a, E b) {
    if (isC(a)) return cv(a) ? mkNot(b) : b;
    if (isC(b)) return cv(b) ? mkNot(a) : a;
    if (a == b) return fls();
    if (a > b) std::swap(a, b);
    return raw(O_XOR, sBool(), a, b);
  }
  E mkEq(E a, E b) {
    if (a == b) return tru();
    if (isC(a) && isC(b) && n[a].s.w <= 64) return cst(sBool(), cv(a) == cv(b));
    if (n[a].s.k == S_BOOL) return mkNot(mkXor(a, b));
    if (isC(b)) std::swap(a, b);
    if (isC(a) && n[b].op == O_ITE && isC(n[b].b) && isC(n[b].c)) {
      bool t = cv(n[b].b) == cv(a), f = cv(n[b].c) == cv(a);
      if (t && f) return tru();
      if (!t && !f) return fls();
      return t ? n[b].a : mkNot(n[b].a);
    }
    if (isC(a) && n[b].op == O_ZEXT) {
      int w = n[n[b].a].s.w;
      if (cv(a) & ~mask(w)) return fls();
      return mkEq(cst(n[n[b].a].s, cv(a)), n[b].a);
    }
    if (isC(a) && n[b].op == O_ADD && isC(n[b].a))
      return mkEq(cst(n[a].s, cv(a) - cv(n[b].a)), n[b].b);
    if (n[a].s.k == S_BV && n[a].s.w <= 64 && (n[a].op == O_ADD || n[a].op == O_SUB || n[b].op == O_ADD || n[b].op == O_SUB)) {
      std::map<E, u64> t;
      u64 c = 0;
      int w = n[a].s.w;
      if (linear(a, 1, t, c, w) && linear(b, ~0ull, t, c, w)) {
        c &= mask(w);
        for (auto it = t.begin(); it != t.end();) { if ((it->second & mask(w)) == 0) it = t.erase(it); else ++it; }
        if (t.empty()) return cst(sBool(), c == 0);
        // positive terms == negative terms
        std::map<E, u64> pos, neg;
        for (auto& [e, k] : t) { u64 kk = k & mask(w); if (kk >> (w - 1)) neg[e] = -kk & mask(w); else pos[e] = kk; }
        E l = fromLinear(n[a].s, pos, 0), r = fromLinear(n[a].s, neg, (0 - c) & mask(w));
        if (l > r) std::swap(l, r);
        if (isC(r)) std::swap(l, r);
        if (isC(l) && isC(r)) return cst(sBool(), cv(l) == cv(r));
        return raw(O_EQ, sBool(), l, r);
      }
    }
    return raw(O_EQ, sBool(), a, b);
  }
  // linear form over bit-vectors (arithmetic is modulo 2^w)
  bool linear(E e, u64 k, std::map<E, u64>& t, u64& c, int w) {
    const Node x = n[e];
    if (x.op == O_CONST) { c += k * cv(e); return true; }
    if (x.op == O_ADD) return linear(x.a, k, t, c, w) && linear(x.b, k, t, c, w);
    if (x.op == O_SUB) return linear(x.a, k, t, c, w) && linear(x.b, 0 - k, t, c, w);
    if (x.op == O_MUL && isC(x.a)) return linear(x.b, k * cv(x.a), t, c, w);
    t[e] += k;
    return t.size() <= 24;
  }
  E fromLinear(Sort s, const std::map<E, u64>& t, u64 c) {
    int w = s.w;
    E r = 0;
    c &= mask(w);
    std::vector<std::pair<E, u64>> neg;
    for (auto& [e, k0] : t) {
      u64 k = k0 & mask(w);
      if (!k) continue;
      if (k == mask(w) ) { neg.push_back({e, 1}); continue; }
      E m = k == 1 ? e : raw(O_MUL, s, cst(s, k), e);
      r = r ? raw(O_ADD, s, r, m) : m;
    }
    for (auto& [e, k] : neg) {
      if (!r) { r = raw(O_SUB, s, cst(s, c), e); c = 0; }
      else r = raw(O_SUB, s, r, e);
    }
    if (!r) return cst(s, c);
    return c ? raw(O_ADD, s, cst(s, c), r) : r;
  }
  E mkIte(E c, E t, E f) {
    if (isC(c)) return cv(c) ? t : f;
    if (t == f) return t;
    if (n[t].s.k == S_BOOL) {
      if (isC(t) && isC(f)) return cv(t) ? c : mkNot(c);
      return mkOr(mkAnd(c, t), mkAnd(mkNot(c), f));
    }
    if (n[c].op == O_NOT) return mkIte(n[c].a, f, t);
    if (n[t].op == O_ITE && n[t].a == c) t = n[t].b;
    if (n[f].op == O_ITE && n[f].a == c) f = n[f].c;
    return raw(O_ITE, n[t].s, c, t, f);
  }
  static i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
  static u64 foldBV(Op op, u64 a, u64 b, int w) {
    switch (op) {
      case O_ADD: return a + b;
      case O_SUB: return a - b;
      case O_MUL: return a * b;
      case O_UDIV: return b ? a / b : mask(w);
      case O_UREM: return b ? a % b : a;
      case O_SDIV: { i64 x = sx(a, w), y = sx(b, w); return y == 0 ? (x < 0 ? 1 : mask(w)) : (y == -1 ? (u64)-x : (u64)(x / y)); }
      case O_SREM: { i64 x = sx(a, w), y = sx(b, w); return y == 0 ? a : (y == -1 ? 0 : (u64)(x % y)); }
      case O_SHL: return b >= (u64)w ? 0 : a << b;
      case O_LSHR: return b >= (u64)w ? 0 : a >> b;
      case O_ASHR: { i64 x = sx(a, w); return b >= (u64)w ? (x < 0 ? ~0ull : 0) : (u64)(x >> b); }
      case O_BAND: return a & b;
      case O_BOR: return a | b;
      case O_BXOR: return a ^ b;
      default: abort();
    }
  }
  E mkBV(Op op, E a, E b) {
    Sort s = n[a].s;
    if (s.k == S_BOOL) {
      switch (op) {
        case O_BAND: case O_MUL: return mkAnd(a, b);
        case O_BOR: return mkOr(a, b);
        case O_BXOR: case O_ADD: case O_SUB: return mkXor(a, b);
        default: fprintf(stderr, "symx: i1 op %d\n", op); exit(3);
      }
    }
    if (isC(a) && isC(b) && s.w <= 64) return cst(s, foldBV(op, cv(a), cv(b), s.w));
    if (s.w > 64) return raw(op, s, a, b);
    bool comm = op == O_ADD || op == O_MUL || op == O_BAND || op == O_BOR || op == O_BXOR;
    if (comm && (isC(b) || (!isC(a) && a > b))) std::swap(a, b);
    // choices between constants stay choices between constants
    auto cc = [&](E e) { return n[e].op == O_ITE && isC(n[e].b) && isC(n[e].c); };
    if (isC(a) && cc(b)) return mkIte(n[b].a, mkBV(op, a, n[b].b), mkBV(op, a, n[b].c));
    if (isC(b) && cc(a)) return mkIte(n[a].a, mkBV(op, n[a].b, b), mkBV(op, n[a].c, b));
    if (cc(a) && cc(b) && (op == O_BAND || op == O_BOR || op == O_BXOR)) {
      u64 at = cv(n[a].b), af = cv(n[a].c), bt = cv(n[b].b), bf = cv(n[b].c);
      if (at <= 1 && af <= 1 && bt <= 1 && bf <= 1 && at != af && bt != bf) {
        E p = at ? n[a].a : mkNot(n[a].a), q = bt ? n[b].a : mkNot(n[b].a);
        return mkIte(op == O_BAND ? mkAnd(p, q) : op == O_BOR ? mkOr(p, q) : mkXor(p, q), cst(s, 1), cst(s, 0));
      }
    }
    if (op == O_ADD || op == O_SUB) {
      std::map<E, u64> t;
      u64 c = 0;
      if (linear(a, 1, t, c, s.w) && linear(b, op == O_ADD ? 1 : ~0ull, t, c, s.w)) return fromLinear(s, t, c);
    }
    switch (op) {
      case O_ADD:
        if (isC(a) && cv(a) == 0) return b;
        if (isC(a) && n[b].op == O_ADD && isC(n[b].a)) return mkBV(O_ADD, cst(s, cv(a) + cv(n[b].a)), n[b].b);
        if (!isC(a) && n[a].op == O_ADD && isC(n[a].a)) return mkBV(O_ADD, n[a].a, mkBV(O_ADD, n[a].b, b));
        if (!isC(a) && n[b].op == O_ADD && isC(n[b].a)) return mkBV(O_ADD, n[b].a, mkBV(O_ADD, a, n[b].b));
        break;
      case O_SUB:
        if (a == b) return cst(s, 0);
        if (isC(b)) return mkBV(O_ADD, cst(s, -cv(b)), a);
        // (c + x) - x
        if (n[a].op == O_ADD) { if (n[a].b == b) return n[a].a; if (n[a].a == b) return n[a].b; }
        break;
      case O_MUL:
        if (isC(a)) { if (cv(a) == 0) return a; if (cv(a) == 1) return b; }
        break;
      case O_BAND:
        if (isC(a)) {
          if (cv(a) == 0) return a;
          if (cv(a) == mask(s.w)) return b;
          if (n[b].op == O_ZEXT && (cv(a) & mask(n[n[b].a].s.w)) == mask(n[n[b].a].s.w)) return b;
        }
        if (a == b) return a;
        break;
      case O_BOR:
        if (isC(a)) { if (cv(a) == 0) return b; if (cv(a) == mask(s.w)) return a; }
        if (a == b) return a;
        break;
      case O_BXOR:
        if (isC(a) && cv(a) == 0) return b;
        if (a == b) return cst(s, 0);
        break;
      case O_SHL: case O_LSHR: case O_ASHR:
        if (isC(b) && cv(b) == 0) return a;
        break;
      case O_UDIV: case O_SDIV:
        if (isC(b) && cv(b) == 1) return a;
        break;
      default: break;
    }
    return raw(op, s, a, b);
  }
  E mkCmp(Op op, E a, E b) {
    int w = n[a].s.w;
    if (n[a].s.k == S_BOOL) {
      switch (op) {
        case O_ULT: return mkAnd(mkNot(a), b);
        case O_ULE: return mkOr(mkNot(a), b);
        case O_SLT: return mkAnd(a, mkNot(b));
        case O_SLE: return mkOr(a, mkNot(b));
        default: abort();
      }
    }
    if (isC(a) && isC(b) && w <= 64) {
      u64 x = cv(a), y = cv(b);
      bool r = op == O_ULT ? x < y : op == O_ULE ? x <= y : op == O_SLT ? sx(x, w) < sx(y, w) : sx(x, w) <= sx(y, w);
      return cst(sBool(), r);
    }
    if (a == b) return cst(sBool(), op == O_ULE || op == O_SLE);
    if (isC(a) && n[b].op == O_ITE && isC(n[b].b) && isC(n[b].c)) return mkIte(n[b].a, mkCmp(op, a, n[b].b), mkCmp(op, a, n[b].c));
    if (isC(b) && n[a].op == O_ITE && isC(n[a].b) && isC(n[a].c)) return mkIte(n[a].a, mkCmp(op, n[a].b, b), mkCmp(op, n[a].c, b));
    if (op == O_ULT && isC(b) && cv(b) == 0) return fls();
    if (op == O_ULE && isC(a) && cv(a) == 0) return tru();
    return raw(op, sBool(), a, b);
  }
  E mkExtract(E a, int hi, int lo) {
    Sort s = n[a].s;
    if (s.k == S_BOOL) return a;
    int w = hi - lo + 1;
    if (w == s.w) return a;
    if (isC(a) && s.w <= 64) return cst(sBV(w), cv(a) >> lo);
    if (n[a].op == O_EXTRACT) return mkExtract(n[a].a, hi + (int)(n[a].k & 0xffff), lo + (int)(n[a].k & 0xffff));
    if (n[a].op == O_ZEXT || n[a].op == O_SEXT) {
      int iw = n[n[a].a].s.w;
      if (hi < iw && n[n[a].a].s.k == S_BV) return mkExtract(n[a].a, hi, lo);
      if (n[a].op == O_ZEXT && lo >= iw) return cst(sBV(w), 0);
      if (lo == 0 && hi >= iw - 1 && w >= iw) return mkExt(n[a].op, n[a].a, w);
    }
    if (n[a].op == O_CONCAT) {
      int lw = n[n[a].b].s.w;
      if (hi < lw) return mkExtract(n[a].b, hi, lo);
      if (lo >= lw) return mkExtract(n[a].a, hi - lw, lo - lw);
    }
    if (n[a].op == O_ITE && isC(n[a].b) && isC(n[a].c))
      return mkIte(n[a].a, mkExtract(n[a].b, hi, lo), mkExtract(n[a].c, hi, lo));
    if (w == 1) {  // produce a Bool
      E x = raw(O_EXTRACT, Sort{S_BV, 1}, a, 0, 0, ((u64)hi << 16) | lo);
      return raw(O_EQ, sBool(), raw(O_CONST, Sort{S_BV, 1}, 0, 0, 0, 1), x);
    }
    return raw(O_EXTRACT, sBV(w), a, 0, 0, ((u64)hi << 16) | lo);
  }
  E mkExt(Op op, E a, int w) {
    Sort s = n[a].s;
    if (s.k == S_BOOL) {
      if (w == 1) return a;
      return mkIte(a, cst(sBV(w), op == O_ZEXT ? 1 : ~0ull, op == O_ZEXT ? 0 : ~0ull), cst(sBV(w), 0));
    }
    if (s.w == w) return a;
    if (isC(a) && w <= 64) return cst(sBV(w), op == O_ZEXT ? cv(a) : (u64)sx(cv(a), s.w));
    if (isC(a) && w > 64 && s.w <= 64) return cst(sBV(w), op == O_ZEXT ? cv(a) : (u64)sx(cv(a), s.w), op == O_SEXT && sx(cv(a), s.w) < 0 ? ~0ull : 0);
    if (op == O_ZEXT && n[a].op == O_ZEXT) return mkExt(op, n[a].a, w);
    if (n[a].op == O_ITE && isC(n[a].b) && isC(n[a].c)) return mkIte(n[a].a, mkExt(op, n[a].b, w), mkExt(op, n[a].c, w));
    return raw(op, sBV(w), a);
  }
  E mkConcat(E hi, E lo) {
    int w = n[hi].s.w + n[lo].s.w;
    if (isC(hi) && isC(lo) && w <= 64) return cst(sBV(w), (cv(hi) << n[lo].s.w) | cv(lo));
    if (n[hi].op == O_EXTRACT && n[lo].op == O_EXTRACT && n[hi].a == n[lo].a) {
      u64 kh = n[hi].k, kl = n[lo].k;
      if ((int)(kh & 0xffff) == (int)(kl >> 16) + 1) return mkExtract(n[hi].a, kh >> 16, kl & 0xffff);
    }
    if (isC(hi) && cv(hi) == 0 && n[hi].s.w <= 64) return mkExt(O_ZEXT, lo, w);
    return raw(O_CONCAT, sBV(w), hi, lo);
  }
  E mkBits(E f) {
    if (isC(f)) return cst(sBV(n[f].s.w), cv(f));
    if (n[f].op == O_FROMBITS) return n[f].a;
    return raw(O_BITS, sBV(n[f].s.w), f);
  }
  E mkFromBits(E b, Sort fs) {
    if (isC(b)) return cst(fs, cv(b));
    if (n[b].op == O_BITS && n[n[b].a].s == fs) return n[b].a;
    if (n[b].op == O_ITE) return mkIte(n[b].a, mkFromBits(n[b].b, fs), mkFromBits(n[b].c, fs));
    return raw(O_FROMBITS, fs, b);
  }
  // ---- floating point ----
  bool realLike() const { return mode != M_FP; }
  bool isInf(E e) const { return isC(e) && std::isinf(cd(e)); }
  bool isNan(E e) const { return isC(e) && std::isnan(cd(e)); }
  bool cIs(E e, double d) const { return isC(e) && cd(e) == d; }
  static double foldF(Op op, double x, double y) {
    switch (op) {
      case O_FADD: return x + y;
      case O_FSUB: return x - y;
      case O_FMUL: return x * y;
      case O_FDIV: return x / y;
      case O_FREM: return std::fmod(x, y);
      case O_FMIN: return std::fmin(x, y);
      case O_FMAX: return std::fmax(x, y);
      case O_COPYSIGN: return std::copysign(x, y);
      case O_ATAN2: return std::atan2(x, y);
      case O_HYPOT: return std::hypot(x, y);
      default: abort();
    }
  }
  E mkF2(Op op, E a, E b) {
    Sort s = n[a].s;
    if (isC(a) && isC(b)) {
      if (s.k == S_F32 && op <= O_FDIV) {
        float x = cd(a), y = cd(b);
        float r = op == O_FADD ? x + y : op == O_FSUB ? x - y : op == O_FMUL ? x * y : x / y;
        return cF(s, r);
      }
      return cF(s, foldF(op, cd(a), cd(b)));
    }
    if (realLike()) {
      if (isNan(a) || isNan(b)) return isNan(a) ? a : b;
      bool ia = isInf(a), ib = isInf(b);
      if (ia || ib) {
        switch (op) {
          case O_FADD: return ia ? a : b;
          case O_FSUB: return ia ? a : mkF1(O_FNEG, b);
          case O_FDIV: if (ib) return cF(s, 0.0); break;
          case O_FMIN: { E inf = ia ? a : b, o = ia ? b : a; return cd(inf) > 0 ? o : inf; }
          case O_FMAX: { E inf = ia ? a : b, o = ia ? b : a; return cd(inf) > 0 ? inf : o; }
          case O_FMUL: case O_FREM: default: break;
        }
      }
      switch (op) {
        case O_FADD:
          if (cIs(a, 0)) return b;
          if (cIs(b, 0)) return a;
          if (mode == M_REAL) {
            if (n[a].op == O_FNEG && n[a].a == b) return cF(s, 0);
            if (n[b].op == O_FNEG && n[b].a == a) return cF(s, 0);
            if (n[b].op == O_FNEG) return mkF2(O_FSUB, a, n[b].a);
            if (n[a].op == O_FNEG) return mkF2(O_FSUB, b, n[a].a);
          }
          break;
        case O_FSUB:
          if (a == b) return cF(s, 0);
          if (cIs(b, 0)) return a;
          if (cIs(a, 0)) return mkF1(O_FNEG, b);
          if (n[b].op == O_FNEG) return mkF2(O_FADD, a, n[b].a);
          if (mode == M_REAL) {
            if (n[a].op == O_FADD) { if (n[a].a == b) return n[a].b; if (n[a].b == b) return n[a].a; }
          }
          break;
        case O_FMUL:
          if (cIs(a, 0)) return a;
          if (cIs(b, 0)) return b;
          if (cIs(a, 1)) return b;
          if (cIs(b, 1)) return a;
          if (cIs(a, -1)) return mkF1(O_FNEG, b);
          if (cIs(b, -1)) return mkF1(O_FNEG, a);
          if (n[a].op == O_FNEG && n[b].op == O_FNEG) return mkF2(O_FMUL, n[a].a, n[b].a);
          if (n[a].op == O_FNEG) return mkF1(O_FNEG, mkF2(O_FMUL, n[a].a, b));
          if (n[b].op == O_FNEG) return mkF1(O_FNEG, mkF2(O_FMUL, a, n[b].a));
          break;
        case O_FDIV:
          if (cIs(b, 1)) return a;
          if (cIs(b, -1)) return mkF1(O_FNEG, a);
          if (cIs(a, 0) && mode == M_REAL && isC(b)) return a;
          break;
        case O_FMIN: return mkIte(mkFcmp(O_FLT, a, b), a, b);
        case O_FMAX: return mkIte(mkFcmp(O_FLT, a, b), b, a);
        default: break;
      }
    }
    if ((op == O_FADD || op == O_FMUL || op == O_HYPOT) && a > b) std::swap(a, b);
    return raw(op, s, a, b);
  }
  E mkF1(Op op, E a) {
    Sort s = n[a].s;
    if (isC(a)) {
      double x = cd(a), r;
      switch (op) {
        case O_FNEG: return cst(s, cv(a) ^ (s.k == S_F32 ? 0x80000000ull : 0x8000000000000000ull));
        case O_FABS: r = std::fabs(x); break;
        case O_FSQRT: r = s.k == S_F32 ? sqrtf((float)x) : std::sqrt(x); break;
        case O_FTRUNC: r = std::trunc(x); break;
        case O_FFLOOR: r = std::floor(x); break;
        case O_FCEIL: r = std::ceil(x); break;
        case O_FROUND: r = std::round(x); break;
        case O_FRINT: r = std::rint(x); break;
        case O_SIN: r = s.k == S_F32 ? sinf((float)x) : std::sin(x); break;
        case O_COS: r = s.k == S_F32 ? cosf((float)x) : std::cos(x); break;
        default: abort();
      }
      return cF(s, r);
    }
    if (op == O_FNEG) {
      if (n[a].op == O_FNEG) return n[a].a;
      if (mode == M_REAL && n[a].op == O_FSUB) return mkF2(O_FSUB, n[a].b, n[a].a);
    }
    if (op == O_FABS && (n[a].op == O_FABS || n[a].op == O_FNEG)) return mkF1(O_FABS, n[a].a);
    if (realLike()) {
      if (op == O_COS && n[a].op == O_FNEG) return mkF1(O_COS, n[a].a);
      if (op == O_SIN && n[a].op == O_FNEG) return mkF1(O_FNEG, mkF1(O_SIN, n[a].a));
    }
    return raw(op, s, a);
  }
  E mkFcmp(Op op, E a, E b) {
    if (isC(a) && isC(b)) {
      double x = cd(a), y = cd(b);
      bool r = op == O_FEQ ? x == y : op == O_FLT ? x < y : op == O_FLE ? x <= y : (std::isnan(x) || std::isnan(y));
      return cst(sBool(), r);
    }
    if (realLike()) {
      if (op == O_FUNO) return cst(sBool(), isNan(a) || isNan(b));
      if (isNan(a) || isNan(b)) return fls();
      if (isInf(a) || isInf(b)) {
        // the other side is finite in this mode
        if (op == O_FEQ) return fls();
        if (isInf(a)) return cst(sBool(), cd(a) < 0);
        return cst(sBool(), cd(b) > 0);
      }
      if (a == b) return cst(sBool(), op != O_FLT);
      if (n[a].op == O_FNEG && n[b].op == O_FNEG) return mkFcmp(op, n[b].a, n[a].a);
      if (op == O_FEQ && n[b].op == O_FNEG && isC(a)) std::swap(a, b);
      if (n[a].op == O_FNEG && isC(b)) return mkFcmp(op, mkF1(O_FNEG, b), n[a].a);
      if (n[b].op == O_FNEG && isC(a)) return mkFcmp(op, n[b].a, mkF1(O_FNEG, a));
    } else {
      if (op == O_FUNO && isC(b) && !isNan(b)) b = a;
      if (op == O_FUNO && isC(a) && !isNan(a)) a = b;
    }
    if ((op == O_FEQ || op == O_FUNO) && a > b) std::swap(a, b);
    return raw(op, sBool(), a, b);
  }
  E mkFsame(E a, E b) {
    if (a == b) return tru();
    if (isC(a) && isC(b)) return cst(sBool(), cv(a) == cv(b));
    if (realLike()) return mkFcmp(O_FEQ, a, b);
    if (a > b) std::swap(a, b);
    return raw(O_FSAME, sBool(), a, b);
  }
  E mkIToF(Op op, E a, Sort fs) {
    if (n[a].s.k == S_BOOL) a = mkExt(op == O_SITOFP ? O_SEXT : O_ZEXT, a, 8);
    if (isC(a) && n[a].s.w <= 64) {
      if (fs.k == S_F32) return cF(fs, op == O_SITOFP ? (float)sx(cv(a), n[a].s.w) : (float)cv(a));
      return cF(fs, op == O_SITOFP ? (double)sx(cv(a), n[a].s.w) : (double)cv(a));
    }
    if (n[a].op == O_ITE && isC(n[a].b) && isC(n[a].c))
      return mkIte(n[a].a, mkIToF(op, n[a].b, fs), mkIToF(op, n[a].c, fs));
    return raw(op, fs, a);
  }
  E mkFToI(Op op, E a, int w) {
    if (isC(a)) {
      double d = std::trunc(cd(a));
      if (!(d > -9.3e18 && d < 1.85e19)) return cst(sBV(w), 0x8000000000000000ull);
      return cst(sBV(w), d < 0 ? (u64)(i64)d : (op == O_FPTOSI ? (u64)(i64)d : (u64)d));
    }
    return raw(op, sBV(w), a);
  }
  E mkFcvt(E a, Sort fs) {
    if (n[a].s == fs) return a;
    if (isC(a)) return cF(fs, cd(a));
    return raw(fs.k == S_F64 ? O_FPEXT : O_FPTRUNC, fs, a);
  }
};
