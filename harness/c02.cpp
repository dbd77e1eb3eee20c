// C02: Linspace, C03: AngleLinspace.
#include "sym.hpp"
#include <cmath>
#include <numbers>
#include <vector>
#include <trajopt/util/TrajoptUtil.hpp>
#if THOROUGH
constexpr int MAXN = 12;
#else
constexpr int MAXN = 6;
#endif
constexpr double PI = std::numbers::pi;
static double ab(double x) { return sym_ite_f64(x < 0, -x, x); }

SYM_CASE(c02_linspace) {
  size_t n = sym_choice("n", 0, MAXN);
  double a = sym_real("a"), b = sym_real("b");
  sym_assume(sym_all(a <= 1e9, a >= -1e9, b <= 1e9, b >= -1e9));
  if (n % 2) {  // earlier calls do not matter
    trajopt::Linspace(7.0, 9.5, 4);
    trajopt::Linspace(3.0, -2.0, n);
  }
  auto v = trajopt::Linspace(a, b, n);
  sym_check(v.size() == n, "exactly_n_values");
  double tol = 1e-12 * (ab(a) + ab(b)) + 1e-20;
  for (size_t k = 1; k <= n; k++) {
    double want = ((double)(n - k) * a + (double)k * b) / (double)n;
    double d = v[k - 1] - want;
    sym_check(sym_and(d <= tol, -d <= tol), "value_k_is_a_plus_k_steps");
    double lo = sym_ite_f64(a < b, a, b), hi = sym_ite_f64(a < b, b, a);
    sym_check(sym_and(v[k - 1] <= hi + tol, v[k - 1] >= lo - tol), "inside_interval");
  }
  if (n) {
    double d = v[n - 1] - b;
    sym_check(sym_and(d <= tol, -d <= tol), "last_is_end");
    sym_reach("some");
  } else {
    sym_reach("none");
  }
}

static void angle(bool near) {
  size_t n = sym_choice("n", 0, near ? 3 : MAXN);
  double a = sym_within("a"), b = sym_within("b");
  if (near) sym_assume(sym_all(a <= 12 * PI, a >= -12 * PI, b <= 12 * PI, b >= -12 * PI));
  if (n % 2) {  // earlier calls do not matter
    trajopt::AngleLinspace(0.5, 1.5, 4);
    trajopt::AngleLinspace(1.0, 2.25, n);
  }
  auto v = trajopt::AngleLinspace(a, b, n);
  sym_check(v.size() == n, "exactly_n_values");
  if (!n) {
    sym_reach("none");
    return;
  }
  double tol = 1e-9;
  double turn = v[n - 1] - a;
  sym_check(sym_and(turn <= PI + tol, turn >= -PI - tol), "at_most_half_a_turn");
  // equal steps
  for (size_t k = 1; k <= n; k++) {
    double d = (v[k - 1] - a) * (double)n - turn * (double)k;
    sym_check(sym_and(d <= tol * MAXN, -d <= tol * MAXN), "equal_steps");
  }
  double rev = std::round((v[n - 1] - b) / (2 * PI));
  double d = v[n - 1] - b - rev * (2 * PI);
  sym_check(sym_and(d <= tol, -d <= tol), "ends_at_target_modulo_a_turn");
  sym_reach("some");
}

SYM_CASE(c03_angle) { angle(false); }
// for code that takes the turns off one by one
SYM_CASE(c03_angle_near) { angle(true); }
