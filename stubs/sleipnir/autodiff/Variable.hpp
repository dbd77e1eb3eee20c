// Stand-in for Sleipnir's autodiff variables (the real library is not available
// offline).  A Variable is a handle to an expression-graph node; copies alias
// the node, so the value of an expression follows later changes of its leaves.
#pragma once
#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <memory>
#include <numeric>
#include <span>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace sleipnir {
enum class ExpressionType { kNone, kConstant, kLinear, kQuadratic, kNonlinear };
namespace stub {
enum Op : int { CONST, LEAF, ADD, SUB, MUL, DIV, NEG, ABS, SIGN, SQRT, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, HYPOT, EXP, LOG, LOG10, POW, SINH, COSH, TANH, ERF, MIN, MAX };
struct Node {
  Op op;
  double v;
  const Node* a;
  const Node* b;
  long id;            // leaf number, -1 otherwise
  void* owner;        // problem that created a decision variable
  mutable double cache;
  mutable unsigned long epoch;
};
inline unsigned long g_epoch = 1;
inline long g_leafs = 0;
// Every variable that is not a pure constant gets a number; the harness uses
// the numbers of the decision variables.
inline Node* mk(Op op, const Node* a, const Node* b = nullptr) { return new Node{op, 0, a, b, -1, nullptr, 0, 0}; }
inline Node* mkConst(double v) { return new Node{CONST, v, nullptr, nullptr, -1, nullptr, 0, 0}; }
inline Node* mkLeaf(double v, void* owner) { return new Node{LEAF, v, nullptr, nullptr, g_leafs++, owner, 0, 0}; }
double eval(const Node* n);
#ifdef SYMX
extern "C" double sym_ite_f64(bool c, double a, double b);
inline double sel(bool c, double a, double b) { return sym_ite_f64(c, a, b); }
#else
inline double sel(bool c, double a, double b) { return c ? a : b; }
#endif
inline double eval(const Node* n) {
  if (n->op <= LEAF) return n->v;
  if (n->epoch == g_epoch) return n->cache;
  double x = eval(n->a), y = n->b ? eval(n->b) : 0.0, r = 0;
  switch (n->op) {
    case ADD: r = x + y; break;
    case SUB: r = x - y; break;
    case MUL: r = x * y; break;
    case DIV: r = x / y; break;
    case NEG: r = -x; break;
    case ABS: r = std::fabs(x); break;
    case SIGN: r = sel(x < 0.0, -1.0, sel(x == 0.0, 0.0, 1.0)); break;
    case SQRT: r = std::sqrt(x); break;
    case SIN: r = std::sin(x); break;
    case COS: r = std::cos(x); break;
    case TAN: r = std::tan(x); break;
    case ASIN: r = std::asin(x); break;
    case ACOS: r = std::acos(x); break;
    case ATAN: r = std::atan(x); break;
    case ATAN2: r = std::atan2(x, y); break;
    case HYPOT: r = std::hypot(x, y); break;
    case EXP: r = std::exp(x); break;
    case LOG: r = std::log(x); break;
    case LOG10: r = std::log10(x); break;
    case POW: r = std::pow(x, y); break;
    case SINH: r = std::sinh(x); break;
    case COSH: r = std::cosh(x); break;
    case TANH: r = std::tanh(x); break;
    case ERF: r = std::erf(x); break;
    case MIN: r = sel(x < y, x, y); break;
    case MAX: r = sel(x > y, x, y); break;
    default: break;
  }
  n->cache = r;
  n->epoch = g_epoch;
  return r;
}
}  // namespace stub

class Variable {
 public:
  Variable() : expr{stub::mkConst(0.0)} {}
  explicit Variable(std::nullptr_t) : expr{nullptr} {}
  Variable(double value) : expr{stub::mkConst(value)} {}  // NOLINT
  Variable(int value) : expr{stub::mkConst(value)} {}     // NOLINT
  explicit Variable(stub::Node* n) : expr{n} {}
  Variable(const Variable&) = default;
  Variable(Variable&&) = default;
  Variable& operator=(const Variable&) = default;
  Variable& operator=(Variable&&) = default;
  Variable& operator=(double value) {
    expr = stub::mkConst(value);
    return *this;
  }
  Variable& operator=(int value) { return *this = static_cast<double>(value); }
  void SetValue(double value) {
    if (expr->op == stub::CONST && expr->v == 0.0) {
      expr = stub::mkConst(value);
    } else {
      expr->v = value;
    }
    ++stub::g_epoch;
  }
  void SetValue(int value) { SetValue(static_cast<double>(value)); }
  double Value() const { return stub::eval(expr); }
  ExpressionType Type() const {
    return expr->op == stub::CONST ? ExpressionType::kConstant
           : expr->op == stub::LEAF ? ExpressionType::kLinear
                                    : ExpressionType::kNonlinear;
  }
  Variable& operator+=(const Variable& r) { return *this = Variable{stub::mk(stub::ADD, expr, r.expr)}; }
  Variable& operator-=(const Variable& r) { return *this = Variable{stub::mk(stub::SUB, expr, r.expr)}; }
  Variable& operator*=(const Variable& r) { return *this = Variable{stub::mk(stub::MUL, expr, r.expr)}; }
  Variable& operator/=(const Variable& r) { return *this = Variable{stub::mk(stub::DIV, expr, r.expr)}; }
  friend Variable operator+(const Variable& l, const Variable& r) { return Variable{stub::mk(stub::ADD, l.expr, r.expr)}; }
  friend Variable operator-(const Variable& l, const Variable& r) { return Variable{stub::mk(stub::SUB, l.expr, r.expr)}; }
  friend Variable operator*(const Variable& l, const Variable& r) { return Variable{stub::mk(stub::MUL, l.expr, r.expr)}; }
  friend Variable operator/(const Variable& l, const Variable& r) { return Variable{stub::mk(stub::DIV, l.expr, r.expr)}; }
  friend Variable operator-(const Variable& l) { return Variable{stub::mk(stub::NEG, l.expr)}; }
  friend Variable operator+(const Variable& l) { return l; }
  stub::Node* expr;
};

#define SLP_U(fn, OP) inline Variable fn(const Variable& x) { return Variable{stub::mk(stub::OP, x.expr)}; }
SLP_U(abs, ABS) SLP_U(fabs, ABS) SLP_U(acos, ACOS) SLP_U(asin, ASIN) SLP_U(atan, ATAN)
SLP_U(cos, COS) SLP_U(cosh, COSH) SLP_U(erf, ERF) SLP_U(exp, EXP) SLP_U(log, LOG)
SLP_U(log10, LOG10) SLP_U(sign, SIGN) SLP_U(sin, SIN) SLP_U(sinh, SINH) SLP_U(sqrt, SQRT)
SLP_U(tan, TAN) SLP_U(tanh, TANH)
#undef SLP_U
inline Variable atan2(const Variable& y, const Variable& x) { return Variable{stub::mk(stub::ATAN2, y.expr, x.expr)}; }
inline Variable hypot(const Variable& x, const Variable& y) { return Variable{stub::mk(stub::HYPOT, x.expr, y.expr)}; }
inline Variable hypot(const Variable& x, const Variable& y, const Variable& z) { return sqrt(x * x + y * y + z * z); }
inline Variable pow(const Variable& b, const Variable& p) { return Variable{stub::mk(stub::POW, b.expr, p.expr)}; }
inline Variable min(const Variable& a, const Variable& b) { return Variable{stub::mk(stub::MIN, a.expr, b.expr)}; }
inline Variable max(const Variable& a, const Variable& b) { return Variable{stub::mk(stub::MAX, a.expr, b.expr)}; }

template <typename T>
concept ScalarLike = std::same_as<std::remove_cvref_t<T>, Variable> || std::is_arithmetic_v<std::remove_cvref_t<T>>;
}  // namespace sleipnir
#include "VariableMatrix.hpp"
#include "sleipnir/optimization/Constraints.hpp"
