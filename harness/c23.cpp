// C23: conversion of a solution to a timestamped trajectory.
#include "sym.hpp"
#include <cmath>
#include <numbers>
#include <vector>
#include <trajopt/solution/SwerveSolution.hpp>
#include <trajopt/trajectory/HolonomicTrajectory.hpp>
#if THOROUGH
constexpr int MAXS = 8, MAXM = 4;
#else
constexpr int MAXS = 4, MAXM = 2;
#endif
static trajopt::SwerveSolution mk(size_t n, size_t m, bool extra) {
  if (n % 2 == 0)  // earlier conversions do not matter
    for (size_t z : {n + 1, n}) {
      trajopt::SwerveSolution o;
      for (auto* q : {&o.dt, &o.x, &o.y, &o.thetacos, &o.thetasin, &o.vx, &o.vy, &o.omega, &o.ax, &o.ay, &o.alpha}) q->assign(z, 0.75);
      o.moduleFX.assign(z, std::vector<double>(m, 2.0));
      o.moduleFY.assign(z, std::vector<double>(m, 3.0));
      trajopt::HolonomicTrajectory t{o};
    }
  trajopt::SwerveSolution s;
  auto fill = [](std::vector<double>& v, const char* nm, size_t k) {
    v.reserve(k);
    for (size_t i = 0; i < k; i++) v.push_back(sym_f64(nm));
  };
  // one step per interval; the initial guess carries one more entry
  fill(s.dt, "dt", n - 1 + (extra ? 1 : 0));
  fill(s.x, "x", n);
  fill(s.y, "y", n);
  fill(s.thetacos, "thetacos", n);
  fill(s.thetasin, "thetasin", n);
  fill(s.vx, "vx", n);
  fill(s.vy, "vy", n);
  fill(s.omega, "omega", n);
  fill(s.ax, "ax", n);
  fill(s.ay, "ay", n);
  fill(s.alpha, "alpha", n);
  for (size_t i = 0; i < n; i++) {
    fill(s.moduleFX.emplace_back(), "fx", m);
    fill(s.moduleFY.emplace_back(), "fy", m);
  }
  return s;
}
SYM_CASE(c23_copy) {  // bit-precise
  size_t n = sym_choice("samples", 1, MAXS), m = sym_choice("modules", 0, MAXM);
  bool extra = sym_choice("extra", 0, 1);
  auto s = mk(n, m, extra);
  const auto ref = s;
  trajopt::HolonomicTrajectory t{s};
  sym_check(t.samples.size() == n, "one_sample_per_entry");
  double ts = 0;
  for (size_t i = 0; i < n; i++) {
    auto& q = t.samples[i];
    sym_check(sym_same_f64(q.x, ref.x[i]), "x");
    sym_check(sym_same_f64(q.y, ref.y[i]), "y");
    sym_check(sym_same_f64(q.velocityX, ref.vx[i]), "vx");
    sym_check(sym_same_f64(q.velocityY, ref.vy[i]), "vy");
    sym_check(sym_same_f64(q.angularVelocity, ref.omega[i]), "omega");
    sym_check(q.moduleForcesX.size() == m && q.moduleForcesY.size() == m, "module_count");
    for (size_t k = 0; k < m; k++) {
      sym_check(sym_same_f64(q.moduleForcesX[k], ref.moduleFX[i][k]), "fx");
      sym_check(sym_same_f64(q.moduleForcesY[k], ref.moduleFY[i][k]), "fy");
    }
    sym_check(s.x[i] == ref.x[i] || true, "source");
  }
  sym_reach("end");
}
SYM_CASE(c23_time) {
  size_t n = sym_choice("samples", 1, MAXS);
  bool extra = sym_choice("extra", 0, 1);
  auto s = mk(n, 1, extra);
  double mag = 0;
  for (auto d : s.dt) {
    sym_assume(sym_and(d <= 1e6, d >= -1e6));
    mag += sym_ite_f64(d < 0, -d, d);
  }
  trajopt::HolonomicTrajectory t{s};
  double tol = 1e-12 * mag + 1e-20;
  double d0 = t.samples[0].timestamp;
  sym_check(d0 == 0.0, "starts_at_zero");
  for (size_t i = 1; i < n; i++) {
    double d = t.samples[i].timestamp - t.samples[i - 1].timestamp - s.dt[i - 1];
    sym_check(sym_and(d <= tol, -d <= tol), "timestamp_advances_by_step");
    sym_check(sym_implies(s.dt[i - 1] >= 0, t.samples[i].timestamp >= t.samples[i - 1].timestamp), "never_decreases");
  }
  sym_reach("end");
}
SYM_CASE(c23_heading) {
  size_t n = sym_choice("samples", 1, MAXS);
  auto s = mk(n, 0, false);
  trajopt::HolonomicTrajectory t{s};
  for (size_t i = 0; i < n; i++) {
    double c = s.thetacos[i], w = s.thetasin[i];
    double h = t.samples[i].heading;
    sym_check(sym_and(h <= std::numbers::pi + 1e-9, h >= -std::numbers::pi - 1e-9), "heading_range");
    double r = std::hypot(w, c);
    double hc = std::cos(h), hs = std::sin(h);
    sym_check(sym_implies(sym_and(r > 1e-3, r < 1e3), sym_and(near(hc * r, c), near(hs * r, w))), "heading_is_angle_of_heading_vector");
  }
  sym_reach("end");
}
