// Drives the real library natively against a recording stand-in of Sleipnir
// (./stubs): builds physically consistent trajectories, finds the decision
// variable behind each entry of a solution, and evaluates what was posted.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <numbers>
#include <optional>
#include <string>
#include <vector>
#include <sleipnir/optimization/OptimizationProblem.hpp>
#include <trajopt/SwerveTrajectoryGenerator.hpp>
#include <trajopt/path/SwervePathBuilder.hpp>
#include <trajopt/trajectory/HolonomicTrajectory.hpp>
#include <trajopt/util/Cancellation.hpp>
using namespace trajopt;
using PState = sleipnir::stub::State;
#define CHECK(c, ...) do { if (!(c)) { std::printf("FAILED line %d: %s: ", __LINE__, #c); std::printf("" __VA_ARGS__); std::puts(""); std::exit(1); } } while (0)
inline bool near(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); }
using V = std::vector<double>;
using VV = std::vector<V>;
struct Traj {  // dt per segment; everything else per sample
  std::vector<size_t> n;
  V dt, x, y, h, vx, vy, w, ax, ay, al;
  VV fx, fy;
  size_t samples() const { return x.size(); }
};
// backward-Euler roll-out: acc(sample) gives {ax, ay, alpha}
inline Traj roll(std::vector<size_t> n, V dt, V start /*x,y,h,vx,vy,w*/, std::function<V(size_t)> acc) {
  Traj t;
  t.n = n;
  t.dt = dt;
  auto a0 = acc(0);
  t.x = {start[0]}; t.y = {start[1]}; t.h = {start[2]}; t.vx = {start[3]}; t.vy = {start[4]}; t.w = {start[5]};
  t.ax = {a0[0]}; t.ay = {a0[1]}; t.al = {a0[2]};
  for (size_t s = 0; s < n.size(); s++)
    for (size_t k = 0; k < n[s]; k++) {
      auto a = acc(t.x.size());
      t.ax.push_back(a[0]); t.ay.push_back(a[1]); t.al.push_back(a[2]);
      t.vx.push_back(t.vx.back() + a[0] * dt[s]);
      t.vy.push_back(t.vy.back() + a[1] * dt[s]);
      t.w.push_back(t.w.back() + a[2] * dt[s]);
      t.x.push_back(t.x.back() + t.vx.back() * dt[s]);
      t.y.push_back(t.y.back() + t.vy.back() * dt[s]);
      t.h.push_back(t.h.back() + t.w.back() * dt[s]);
    }
  return t;
}
// minimum-norm module forces: F = A^T (A A^T)^-1 b
inline void forces(Traj& t, const SwerveDrivetrain& d) {
  size_t m = d.modules.size();
  for (size_t i = 0; i < t.samples(); i++) {
    double c = std::cos(t.h[i]), s = std::sin(t.h[i]);
    V rx, ry;
    double sx = 0, sy = 0, rr = 0;
    for (auto& k : d.modules) {
      double X = k.translation.X(), Y = k.translation.Y();
      rx.push_back(X * c - Y * s);
      ry.push_back(X * s + Y * c);
      sx += rx.back(); sy += ry.back();
      rr += rx.back() * rx.back() + ry.back() * ry.back();
    }
    double b[3] = {d.mass * t.ax[i], d.mass * t.ay[i], d.moi * t.al[i]};
    // A A^T = [m 0 -sy; 0 m sx; -sy sx rr]
    double M[3][4] = {{(double)m, 0, -sy, b[0]}, {0, (double)m, sx, b[1]}, {-sy, sx, rr, b[2]}};
    for (int p = 0; p < 3; p++) {
      double f = M[p][p];
      for (int q = 0; q < 4; q++) M[p][q] /= f;
      for (int r = 0; r < 3; r++) if (r != p) { double g = M[r][p]; for (int q = 0; q < 4; q++) M[r][q] -= g * M[p][q]; }
    }
    t.fx.emplace_back(); t.fy.emplace_back();
    for (size_t k = 0; k < m; k++) {
      t.fx[i].push_back(M[0][3] - M[2][3] * ry[k]);
      t.fy[i].push_back(M[1][3] + M[2][3] * rx[k]);
    }
  }
}
inline SwerveDrivetrain drivetrain(double mass = 45, double moi = 6, double speed = 100, double torque = 40) {
  SwerveDrivetrain d;
  d.mass = mass;
  d.moi = moi;
  for (auto [x, y] : std::vector<std::pair<double, double>>{{0.6, 0.5}, {0.6, -0.5}, {-0.6, 0.5}, {-0.6, -0.5}})
    d.modules.push_back(SwerveModule{{x, y}, 0.04, speed, torque});
  return d;
}
inline sleipnir::SolverStatus solveTags(PState& st, const sleipnir::SolverConfig&) {
  for (size_t k = 0; k < st.vars.size(); k++) st.vars[k].SetValue((double)(k + 1));
  return {};
}
struct Problem {
  std::unique_ptr<SwerveTrajectoryGenerator> gen;
  PState* st;
  V start;
  SwerveSolution map;
  explicit Problem(const SwervePathBuilder& b, int64_t handle = 0) {
    gen = std::make_unique<SwerveTrajectoryGenerator>(b, handle);
    st = sleipnir::stub::g_states.back();
    for (auto& v : st->vars) start.push_back(v.Value());
    sleipnir::stub::g_solve = solveTags;
    auto r = gen->Generate();
    CHECK(r.has_value());
    map = *r;
  }
  double starting(double tag) const { return start[(size_t)tag - 1]; }
  void set(const V& tags, const V& v) { for (size_t i = 0; i < v.size() && i < tags.size(); i++) st->vars[(size_t)tags[i] - 1].SetValue(v[i]); }
  void set(const Traj& t) {
    CHECK(map.x.size() == t.samples(), "%zu samples instead of %zu", map.x.size(), t.samples());
    V c, s, dt;
    for (double h : t.h) c.push_back(std::cos(h)), s.push_back(std::sin(h));
    for (size_t g = 0; g < t.n.size(); g++) for (size_t k = 0; k < t.n[g]; k++) dt.push_back(t.dt[g]);
    set(map.dt, dt); set(map.x, t.x); set(map.y, t.y); set(map.thetacos, c); set(map.thetasin, s);
    set(map.vx, t.vx); set(map.vy, t.vy); set(map.omega, t.w); set(map.ax, t.ax); set(map.ay, t.ay); set(map.alpha, t.al);
    for (size_t i = 0; i < t.samples(); i++) set(map.moduleFX[i], t.fx[i]), set(map.moduleFY[i], t.fy[i]);
  }
  // largest violation of what was posted
  double violation() {
    double m = 0;
    for (auto& e : st->eqs) m = std::max(m, std::fabs(e.Value()));
    for (auto& e : st->ineqs) m = std::max(m, -e.Value());
    return m;
  }
  bool admits(const Traj& t, double tol = 1e-7) { set(t); return violation() <= tol; }
  double objective() { return st->maximize ? -st->objective->Value() : st->objective->Value(); }
};
