// Helpers shared by the harnesses that look at optimization variables.
#pragma once
#include "sym.hpp"
#include <cmath>
#include <string>
#include <numbers>
#include <vector>
#include <sleipnir/autodiff/Variable.hpp>
#include <sleipnir/optimization/OptimizationProblem.hpp>
using sleipnir::Variable;
constexpr double PI = std::numbers::pi;
inline double val(double v) { return v; }
inline double val(const Variable& v) { return v.Value(); }
inline Variable leaf(double v) { return Variable{sleipnir::stub::mkLeaf(v, nullptr)}; }
// e == 0 / e >= 0 as assumptions; natively within a tolerance, because the
// solver's exact model is rounded to doubles for the replay.
inline bool is_zero(double e) { return sym_is_symbolic() ? e == 0.0 : std::fabs(e) <= 2e-7; }
inline bool is_nonneg(double e) { return sym_is_symbolic() ? e >= 0.0 : e >= -2e-7; }
inline double absr(double x) { return sym_ite_f64(x < 0, -x, x); }
inline double minr(double a, double b) { return sym_ite_f64(a < b, a, b); }
inline double maxr(double a, double b) { return sym_ite_f64(a > b, a, b); }
// assume everything the problem posts
inline void pool_posted(sleipnir::OptimizationProblem& p) {
  for (auto& e : p.m_s->eqs) sym_pool(is_zero(e.Value()));
  for (auto& e : p.m_s->ineqs) sym_pool(is_nonneg(e.Value()));
}
// every posted constraint holds (label per kind)
inline void check_posted(sleipnir::OptimizationProblem& p, const char* label) {
  for (auto& e : p.m_s->eqs) check_near(e.Value(), 0.0, label);
  for (auto& e : p.m_s->ineqs) check_ge(e.Value(), 0.0, label);
}
