// Drives the trajectory generator: symbolic paths, the solver hook, and a map
// from the entries of a returned solution to the problem's decision variables.
#pragma once
#include "constr.hpp"
#include <trajopt/SwerveTrajectoryGenerator.hpp>
#include <trajopt/path/SwervePathBuilder.hpp>
using sleipnir::SolverConfig;
using sleipnir::SolverExitCondition;
using sleipnir::SolverStatus;
using PState = sleipnir::stub::State;
struct Mod { double x, y, r, w, t; };
struct Robot { double mass, moi; std::vector<Mod> m; };
struct Shape { std::vector<size_t> n; size_t total() const { size_t t = 1; for (auto c : n) t += c; return t; } };

inline Robot robot(size_t mods) {
  Robot r;
  r.mass = sym_real("mass");
  r.moi = sym_real("moi");
  sym_assume(sym_and(r.mass > 0.0, r.moi > 0.0));
  for (size_t i = 0; i < mods; i++) {
    Mod m{sym_real("mod_x", 2), sym_real("mod_y", 2), sym_real("wheel_radius", 1), sym_real("wheel_speed"), sym_real("wheel_torque", 5)};
    sym_assume(sym_all(m.r > 0.0, m.w > 0.0, m.t > 0.0));
    r.m.push_back(m);
  }
  return r;
}
inline SwerveDrivetrain drivetrain(const Robot& r) {
  SwerveDrivetrain d;
  d.mass = r.mass;
  d.moi = r.moi;
  for (auto& m : r.m) d.modules.push_back(SwerveModule{{m.x, m.y}, m.r, m.w, m.t});
  return d;
}
inline Shape shape(size_t minSeg, size_t maxSeg, size_t maxCnt) {
  Shape s;
  size_t n = sym_choice("segments", minSeg, maxSeg);
  for (size_t i = 0; i < n; i++) s.n.push_back(sym_choice("count", 1, maxCnt));
  return s;
}
// waypoints with concrete guesses
inline void waypoints(SwervePathBuilder& b, const Shape& s) {
  for (size_t w = 0; w <= s.n.size(); w++) b.WptInitialGuessPoint(w, Pose2d{1.0 + w, 2.0 - w, {0.25 * (1.0 + w)}});
  b.ControlIntervalCounts(std::vector<size_t>(s.n));
}
// ---- solver hooks
inline SolverStatus solve_tags(PState& st, const SolverConfig&) {
  for (size_t k = 0; k < st.vars.size(); k++) st.vars[k].SetValue((double)(k + 1));
  return {};
}
inline SolverStatus solve_free(PState& st, const SolverConfig&) {
  for (auto& v : st.vars) v.SetValue(sym_real("v"));
  return {};
}
// ---- a view of the trajectory: variable numbers or values
template <class T> struct View {
  std::vector<T> dt, x, y, c, s, vx, vy, w, ax, ay, al;
  std::vector<std::vector<T>> fx, fy;
};
inline View<double> view(const SwerveSolution& s) {
  return {s.dt, s.x, s.y, s.thetacos, s.thetasin, s.vx, s.vy, s.omega, s.ax, s.ay, s.alpha, s.moduleFX, s.moduleFY};
}
// calls f(member vector) for each quantity of both views
template <class A, class B, class F> void zipView(A& a, B& b, F&& f) {
  f(a.dt, b.dt); f(a.x, b.x); f(a.y, b.y); f(a.c, b.c); f(a.s, b.s); f(a.vx, b.vx); f(a.vy, b.vy); f(a.w, b.w); f(a.ax, b.ax); f(a.ay, b.ay); f(a.al, b.al);
  for (size_t i = 0; i < a.fx.size() && i < b.fx.size(); i++) f(a.fx[i], b.fx[i]);
  for (size_t i = 0; i < a.fy.size() && i < b.fy.size(); i++) f(a.fy[i], b.fy[i]);
}
template <class V> bool shaped(const V& v, const Shape& s, size_t mods) {
  size_t n = s.total();
  if (v.dt.size() < n - 1) return false;
  for (auto* q : {&v.x, &v.y, &v.c, &v.s, &v.vx, &v.vy, &v.w, &v.ax, &v.ay, &v.al}) if (q->size() < n) return false;
  if (v.fx.size() < n || v.fy.size() < n) return false;
  for (size_t i = 0; i < n; i++) if (v.fx[i].size() < mods || v.fy[i].size() < mods) return false;
  return true;
}
using Map = View<size_t>;
// one entry of a solution of tags -> variable number
inline bool untag(const View<double>& t, Map& m, size_t vars) {
  bool ok = true;
  auto one = [&](double d) {
    for (size_t k = 0; k < vars; k++) if (d == (double)(k + 1)) return k;
    ok = false;
    return (size_t)0;
  };
  m.fx.resize(t.fx.size());
  m.fy.resize(t.fy.size());
  zipView(t, m, [&](const std::vector<double>& a, std::vector<size_t>& b) { for (double d : a) b.push_back(one(d)); });
  return ok;
}
// A generator, its problem, and the variable behind each solution entry.
struct Problem {
  SwerveTrajectoryGenerator gen;
  PState* st;
  std::vector<double> start;  // starting values
  Map map;
  bool mapped = false;
  explicit Problem(SwervePathBuilder& b, const Shape& s, size_t mods, int64_t handle = 0) : gen{b, handle}, st{sleipnir::stub::g_states.back()} {
    for (auto& v : st->vars) start.push_back(v.Value());
    sleipnir::stub::g_solve = solve_tags;
    auto r = gen.Generate();
    if (!r.has_value()) return;
    auto v = view(*r);
    if (!shaped(v, s, mods)) return;
    mapped = untag(v, map, st->vars.size());
  }
  Problem(const Problem&) = delete;
  // fresh symbols for every variable, named after what they are (for the search for counterexamples)
  void symbols() {
    std::vector<const char*> name(st->vars.size(), "v");
    if (mapped) {
      auto put = [&](const std::vector<size_t>& q, const char* n) { for (size_t k : q) name[k] = n; };
      put(map.dt, "Mdt"); put(map.x, "Mx"); put(map.y, "My"); put(map.c, "Mc"); put(map.s, "Ms");
      put(map.vx, "Mv"); put(map.vy, "Mv"); put(map.w, "Mw"); put(map.ax, "Ma"); put(map.ay, "Ma"); put(map.al, "Mal");
      for (auto* m : {&map.fx, &map.fy}) for (auto& q : *m) put(q, "Mf");
    }
    for (size_t k = 0; k < name.size(); k++) st->vars[k].SetValue(sym_real(name[k]));
  }
  View<double> values() const {
    View<double> r;
    r.fx.resize(map.fx.size());
    r.fy.resize(map.fy.size());
    zipView(map, r, [&](const std::vector<size_t>& a, std::vector<double>& b) { for (size_t k : a) b.push_back(st->vars[k].Value()); });
    return r;
  }
  // give the variable behind every entry the given value
  void assign(const View<double>& v) {
    zipView(map, v, [&](const std::vector<size_t>& a, const std::vector<double>& b) {
      for (size_t i = 0; i < a.size() && i < b.size(); i++) st->vars[a[i]].SetValue(b[i]);
    });
  }
  std::vector<double> eqs() const { std::vector<double> r; for (auto& e : st->eqs) r.push_back(e.Value()); return r; }
  std::vector<double> ineqs() const { std::vector<double> r; for (auto& e : st->ineqs) r.push_back(e.Value()); return r; }
  void pool() const { for (double e : eqs()) sym_pool(is_zero(e)); for (double e : ineqs()) sym_pool(is_nonneg(e)); }
};
// Earlier uses of the library with other data, in another and in the same
// shape: what follows must not depend on them.
inline void warmPath(const Shape& s, size_t mods, double q) {
  SwervePathBuilder b;
  SwerveDrivetrain d;
  d.mass = 31 + q;
  d.moi = 4 + q;
  for (size_t i = 0; i < mods; i++) d.modules.push_back(SwerveModule{{0.4 + q - 0.3 * (double)i, 0.3 - q + 0.25 * (double)i}, 0.04, 60 + q, 1.5 + q});
  b.SetDrivetrain(d);
  size_t n = s.n.size();
  b.AddBumpers(Bumpers{0.5, {{q, 0.5}, {-0.5, 0.5}, {0.0, -0.5}}});
  for (size_t w = 0; w <= n; w++) b.WptInitialGuessPoint(w, Pose2d{3.0 + q + (double)w, 1.0 - 2.0 * (double)w, {0.5 - q}});
  b.SgmtInitialGuessPoints(n - 1, {Pose2d{7.0, q, {0.3}}});
  b.PoseWpt(0, 3.5, q, 0.25);
  b.TranslationWpt(n, 9.5, q);
  b.WptConstraint(n, LinearVelocityMaxMagnitudeConstraint{0.5 + q});
  b.SgmtConstraint(0, n, AngularVelocityMaxMagnitudeConstraint{0.5 + q});
  b.SgmtObstacle(0, n, Obstacle{0.5, {{20.0, q}, {21.0, q}}});
  b.ControlIntervalCounts(std::vector<size_t>(s.n));
  b.CalculateInitialGuess();
  SwerveTrajectoryGenerator gen{b};
  sleipnir::stub::g_solve = solve_tags;
  gen.Generate();
}
inline void warm(const Shape& s, size_t mods) {
  warmPath(Shape{{2, 3, 1}}, mods + 1, 0.125);
  warmPath(s, mods, 0.375);
}
inline bool has(const std::vector<double>& v, double e) {
  for (double x : v) if (sym_identical_f64(x, e)) return true;
  return false;
}
inline size_t segmentOf(const Shape& s, size_t sample) {  // of the interval ending at `sample`
  size_t at = 0;
  for (size_t i = 0; i < s.n.size(); i++) { at += s.n[i]; if (sample <= at) return i; }
  return s.n.size() - 1;
}
inline St stateAt(const View<double>& v, size_t i) {
  St t;
  t.x = v.x[i]; t.y = v.y[i]; t.c = v.c[i]; t.s = v.s[i];
  t.vx = v.vx[i]; t.vy = v.vy[i]; t.w = v.w[i]; t.ax = v.ax[i]; t.ay = v.ay[i]; t.al = v.al[i];
  t.pose = Pose2v{leaf(t.x), leaf(t.y), {leaf(t.c), leaf(t.s)}};
  t.v = Translation2v{leaf(t.vx), leaf(t.vy)};
  t.a = Translation2v{leaf(t.ax), leaf(t.ay)};
  t.om = leaf(t.w);
  t.alv = leaf(t.al);
  return t;
}
// what a constraint posts for state t
struct Posted { std::vector<double> eq, ge; };
inline Posted posted(const Constraint& k, St& t) {
  OptimizationProblem p;
  std::visit([&](auto&& c) { c.Apply(p, t.pose, t.v, t.om, t.a, t.alv); }, Constraint{k});
  Posted r;
  for (auto& e : p.m_s->eqs) r.eq.push_back(e.Value());
  for (auto& e : p.m_s->ineqs) r.ge.push_back(e.Value());
  return r;
}
inline void unitHeadings(const View<double>& v) {
  for (size_t i = 0; i < v.c.size() && i < v.s.size(); i++) sym_pool(is_zero(v.c[i] * v.c[i] + v.s[i] * v.s[i] - 1.0));
}
