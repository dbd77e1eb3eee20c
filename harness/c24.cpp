// C24: the foreign-function layer against the C++ API; C20: its errors.
#include "gen.hpp"
#include <chrono>
#include <functional>
#include <trajopt/trajectory/HolonomicTrajectory.hpp>
#include <trajopt/util/Cancellation.hpp>
#include <trajoptlib/src/lib.rs.h>
namespace ffi = trajopt::rsffi;
static int64_t g_clock;
namespace std::chrono::inline _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{g_clock}}; }
}  // namespace std::chrono::inline _V2
constexpr int64_t SECOND = 1000000000;
// what a solve sees
struct Seen {
  std::vector<double> start, eqs, ineqs;
  double objective = 0;
  bool hasObjective = false, maximize = false, diagnostics = false;
};
static std::vector<double> g_values;  // variable values of the comparison
static Seen g_seen;
static int g_solves;
static SolverStatus solve_seen(PState& st, const SolverConfig& c) {
  g_solves++;
  g_seen = Seen{};
  for (auto& v : st.vars) g_seen.start.push_back(v.Value());
  while (g_values.size() < st.vars.size()) g_values.push_back(sym_real("v"));
  for (size_t k = 0; k < st.vars.size(); k++) st.vars[k].SetValue(g_values[k]);
  for (auto& e : st.eqs) g_seen.eqs.push_back(e.Value());
  for (auto& e : st.ineqs) g_seen.ineqs.push_back(e.Value());
  g_seen.hasObjective = st.objective.has_value();
  g_seen.maximize = st.maximize;
  g_seen.diagnostics = c.diagnostics;
  if (st.objective.has_value()) g_seen.objective = st.objective->Value();
  return {};
}
static Seen seenFfi(const ffi::SwervePathBuilder& b) {
  sleipnir::stub::g_solve = solve_seen;
  b.generate(false, 0);
  return g_seen;
}
static Seen seenCpp(const trajopt::SwervePathBuilder& b) {
  sleipnir::stub::g_solve = solve_seen;
  SwerveTrajectoryGenerator g{b};
  g.Generate();
  return g_seen;
}
// Arguments of the calls.  The second, concrete run repeats the choices of the
// first with fixed numbers: it only tells which requirement of one list to
// compare with which of the other when they are written in another order.
static std::vector<uint64_t> g_choices;
static size_t g_choice;
static int g_number;
static bool g_concrete;
static uint64_t pick(const char* n, uint64_t lo, uint64_t hi) {
  if (g_concrete) return g_choices[g_choice++];
  g_choices.push_back(sym_choice(n, lo, hi));
  return g_choices.back();
}
static double arg(const char* n) {
  if (!g_concrete) return sym_real(n);
  double r = 1.37 + 0.61 * ((g_number * 3) % 7) + 0.043 * (g_number % 11) - 0.4 * (g_number / 17);
  g_number++;
  return r;
}
static bool within(const std::vector<double>& a, const std::vector<double>& b) {
  for (double e : a) if (!has(b, e)) return false;
  return true;
}
static void base(ffi::SwervePathBuilder& f, trajopt::SwervePathBuilder& c);
using Scenario = std::function<void(ffi::SwervePathBuilder&, trajopt::SwervePathBuilder&)>;
static void compare(const Scenario& run) {
  {  // earlier and other paths do not matter
    auto o = ffi::swerve_path_builder_new();
    trajopt::SwervePathBuilder unused;
    base(*o, unused);
    o->empty_wpt(0, 4.0, 5.0, 0.5);
    o->set_bumpers(3.0, 2.0);
    o->sgmt_circle_obstacle(0, 2, 30.0, 40.0, 0.75);
    o->pose_wpt(1, 7.0, 8.0, 1.25);
    o->wpt_linear_velocity_max_magnitude(1, 2.5);
  }
  auto f = ffi::swerve_path_builder_new();
  trajopt::SwervePathBuilder c;
  g_choices.clear();
  g_concrete = false;
  run(*f, c);
  g_values.clear();
  Seen a = seenFfi(*f), b = seenCpp(c);
  sym_check(a.start.size() == b.start.size(), "same_problem");
  if (a.start.size() != b.start.size()) return;
  for (size_t i = 0; i < a.start.size(); i++) check_near(a.start[i], b.start[i], "same_starting_values");
  sym_check(a.hasObjective == b.hasObjective && a.maximize == b.maximize, "same_objective");
  check_near(a.objective, b.objective, "same_objective");
  if (within(a.eqs, b.eqs) && within(b.eqs, a.eqs) && within(a.ineqs, b.ineqs) && within(b.ineqs, a.ineqs)) {
    sym_check(true, "same_requirements");
    return;
  }
  // written differently: compare at one robot state
  auto state = [](int round) {
    for (size_t k = 0; k < g_values.size(); k++) g_values[k] = 0.375 + 0.8125 * (double)((k * (7 + round)) % 13) + 0.0625 * (double)k - 0.5 * round;
  };
  state(0);
  a = seenFfi(*f);
  b = seenCpp(c);
  constexpr int ROUNDS = 5;
  std::vector<Seen> a2, b2;
  for (int round = 0; round < ROUNDS; round++) {
    auto f2 = ffi::swerve_path_builder_new();
    trajopt::SwervePathBuilder c2;
    g_concrete = true;
    g_choice = 0;
    g_number = 17 * round;
    run(*f2, c2);
    g_concrete = false;
    state(round);
    a2.push_back(seenFfi(*f2));
    b2.push_back(seenCpp(c2));
  }
  auto match = [&](std::vector<double> Seen::*part, const Seen& x, const std::vector<Seen>& x2, const Seen& y, const std::vector<Seen>& y2, const char* label) {
    for (size_t i = 0; i < (x.*part).size(); i++) {
      double e = (x.*part)[i];
      if (has(y.*part, e)) continue;
      bool same = false;
      for (size_t j = 0; j < (y.*part).size(); j++) {
        bool candidate = true;
        for (int r = 0; r < ROUNDS; r++) candidate = candidate && i < (x2[r].*part).size() && j < (y2[r].*part).size() && std::fabs((x2[r].*part)[i] - (y2[r].*part)[j]) < 1e-9;
        if (candidate) same = sym_or(same, near(e, (y.*part)[j]));
      }
      sym_check(same, label);
    }
  };
  match(&Seen::eqs, a, a2, b, b2, "nothing_else_required");
  match(&Seen::eqs, b, b2, a, a2, "same_requirements");
  match(&Seen::ineqs, a, a2, b, b2, "nothing_else_required");
  match(&Seen::ineqs, b, b2, a, a2, "same_requirements");
}
static rust::Vec<size_t> counts(std::initializer_list<size_t> l) { rust::Vec<size_t> r; for (size_t c : l) r.push_back(c); return r; }
static ffi::SwerveDrivetrain ffiDrivetrain(const Robot& r) {
  ffi::SwerveDrivetrain d;
  d.mass = r.mass;
  d.moi = r.moi;
  for (auto& m : r.m) {
    ffi::SwerveModule q;
    q.x = m.x; q.y = m.y; q.wheel_radius = m.r; q.wheel_max_angular_velocity = m.w; q.wheel_max_torque = m.t;
    d.modules.push_back(q);
  }
  return d;
}
// a robot, three waypoints and a bumper on both builders
static Robot plain() { return Robot{40, 5, {Mod{0.5, 0.25, 0.05, 60, 2}, Mod{-0.5, 0.25, 0.05, 60, 2}}}; }
static void base(ffi::SwervePathBuilder& f, trajopt::SwervePathBuilder& c) {
  f.set_drivetrain(ffiDrivetrain(plain()));
  c.SetDrivetrain(drivetrain(plain()));
  for (size_t w = 0; w < 3; w++) {
    f.empty_wpt(w, 1.0 + w, 2.0 - w, 0.25 * w);
    c.WptInitialGuessPoint(w, Pose2d{1.0 + w, 2.0 - w, {0.25 * w}});
  }
  f.set_control_interval_counts(counts({2, 1}));
  c.ControlIntervalCounts({2, 1});
}
static Bumpers rectangle(double l, double w) {
  return Bumpers{.safetyDistance = 0.01, .points = {{+l / 2, +w / 2}, {-l / 2, +w / 2}, {-l / 2, -w / 2}, {+l / 2, -w / 2}}};
}
static Robot anyRobot(size_t n) {
  if (!g_concrete) return robot(n);
  Robot r = plain();
  r.m.clear();
  for (size_t i = 0; i < n; i++) r.m.push_back(Mod{0.5 - 0.75 * i, 0.25 + 0.4 * i, 0.05, 60.0 + i, 2.0 + i});
  return r;
}
static void oneCall(size_t kind, ffi::SwervePathBuilder& f, trajopt::SwervePathBuilder& c) {
  double p = arg("a"), q = arg("b"), r = arg("c");
  size_t i = 0, from = 0, to = 1;
  if (kind >= 3 && kind <= 5) i = pick("index", 0, 2);
  if (kind >= 7 && kind <= 11) i = pick("index", 0, 2);
  if (kind >= 12 && kind <= 18) { size_t k = pick("range", 0, 2); from = k == 2 ? 1 : 0; to = k == 0 ? 1 : 2; }
  switch (kind) {
    case 0: { Robot rb = anyRobot(pick("modules", 1, 3)); f.set_drivetrain(ffiDrivetrain(rb)); c.SetDrivetrain(drivetrain(rb)); break; }
    case 1:
      f.set_bumpers(p, q);
      c.AddBumpers(rectangle(p, q));
      // bumpers show through an obstacle
      f.sgmt_circle_obstacle(0, 1, 3.0, 4.0, 0.5);
      c.SgmtObstacle(0, 1, Obstacle{.safetyDistance = 0.5, .points = {{3.0, 4.0}}});
      break;
    case 2: {
      size_t n0 = pick("n0", 1, 3), n1 = pick("n1", 1, 3);
      f.set_control_interval_counts(counts({n0, n1}));
      c.ControlIntervalCounts({n0, n1});
      break;
    }
    case 3: f.pose_wpt(i, p, q, r); c.PoseWpt(i, p, q, r); break;
    case 4: f.translation_wpt(i, p, q, r); c.TranslationWpt(i, p, q, r); break;
    case 5: f.empty_wpt(i, p, q, r); c.WptInitialGuessPoint(i, Pose2d{p, q, {r}}); break;
    case 6: {
      size_t n = pick("points", 0, 2), at = pick("from", 0, 1);
      rust::Vec<ffi::Pose2d> a;
      std::vector<Pose2d> b;
      for (size_t k = 0; k < n; k++) {
        double x = arg("gx"), y = arg("gy"), h = arg("gh");
        ffi::Pose2d e;
        e.x = x; e.y = y; e.heading = h;
        a.push_back(e);
        b.push_back(Pose2d{x, y, {h}});
      }
      f.sgmt_initial_guess_points(at, a);
      c.SgmtInitialGuessPoints(at, b);
      break;
    }
    case 7: f.wpt_linear_velocity_direction(i, p); c.WptConstraint(i, trajopt::LinearVelocityDirectionConstraint{p}); break;
    case 8: f.wpt_linear_velocity_max_magnitude(i, p); c.WptConstraint(i, trajopt::LinearVelocityMaxMagnitudeConstraint{p}); break;
    case 9: f.wpt_angular_velocity_max_magnitude(i, p); c.WptConstraint(i, trajopt::AngularVelocityMaxMagnitudeConstraint{p}); break;
    case 10: f.wpt_linear_acceleration_max_magnitude(i, p); c.WptConstraint(i, trajopt::LinearAccelerationMaxMagnitudeConstraint{p}); break;
    case 11: f.wpt_point_at(i, p, q, r); c.WptConstraint(i, trajopt::PointAtConstraint{{p, q}, r}); break;
    case 12: f.sgmt_linear_velocity_direction(from, to, p); c.SgmtConstraint(from, to, trajopt::LinearVelocityDirectionConstraint{p}); break;
    case 13: f.sgmt_linear_velocity_max_magnitude(from, to, p); c.SgmtConstraint(from, to, trajopt::LinearVelocityMaxMagnitudeConstraint{p}); break;
    case 14: f.sgmt_angular_velocity_max_magnitude(from, to, p); c.SgmtConstraint(from, to, trajopt::AngularVelocityMaxMagnitudeConstraint{p}); break;
    case 15: f.sgmt_linear_acceleration_max_magnitude(from, to, p); c.SgmtConstraint(from, to, trajopt::LinearAccelerationMaxMagnitudeConstraint{p}); break;
    case 16: f.sgmt_point_at(from, to, p, q, r); c.SgmtConstraint(from, to, trajopt::PointAtConstraint{{p, q}, r}); break;
    case 17:
      f.set_bumpers(1.0, 0.5);
      c.AddBumpers(rectangle(1.0, 0.5));
      f.sgmt_circle_obstacle(from, to, p, q, r);
      c.SgmtObstacle(from, to, Obstacle{.safetyDistance = r, .points = {{p, q}}});
      break;
    default: {
      // polygon; a differing number of x and y coordinates is ignored
      f.set_bumpers(1.0, 0.5);
      c.AddBumpers(rectangle(1.0, 0.5));
      size_t nx = pick("nx", 1, 4), ny = pick("ny", 1, 4);
      if (from || to > 1) sym_assume(nx == ny);
      if (nx > ny + 1 || ny > nx + 1) break;
      rust::Vec<double> x, y;
      std::vector<trajopt::Translation2d> pts;
      for (size_t k = 0; k < nx; k++) x.push_back(arg("px"));
      for (size_t k = 0; k < ny; k++) y.push_back(arg("py"));
      f.sgmt_polygon_obstacle(from, to, x, y, r);
      if (nx == ny) {
        for (size_t k = 0; k < nx; k++) pts.emplace_back(x[k], y[k]);
        c.SgmtObstacle(from, to, Obstacle{.safetyDistance = r, .points = pts});
      } else {
        sym_reach("ragged_polygon");
      }
    }
  }
}
static void calls(size_t lo, size_t hi) {
  compare([&](auto& f, auto& c) {
    base(f, c);
    oneCall(pick("call", lo, hi), f, c);
  });
  sym_reach("end");
}
SYM_CASE(c24_setup) { calls(0, 6); }
SYM_CASE(c24_waypoint) { calls(7, 11); }
SYM_CASE(c24_segment) { calls(12, 17); }
SYM_CASE(c24_polygon) { calls(18, 18); }
// two calls after another
SYM_CASE(c24_two) {
  compare([](auto& f, auto& c) {
    static const size_t kinds[] = {1, 3, 5, 6, 8, 16};
    constexpr size_t n = THOROUGH ? 6 : 4;
    base(f, c);
    oneCall(kinds[pick("call", 0, n - 1)], f, c);
    oneCall(kinds[pick("call", 0, n - 1)], f, c);
  });
  sym_reach("end");
}
// ------------------------------------------------------- trajectories
struct Got { ffi::HolonomicTrajectory t; int64_t handle; int id; };
static std::vector<Got> g_got;
struct Ref { trajopt::HolonomicTrajectory t; int64_t handle; int id; };
static std::vector<Ref> g_ref;
static void got1(ffi::HolonomicTrajectory t, int64_t h) { g_got.push_back(Got{std::move(t), h, 1}); }
static void got2(ffi::HolonomicTrajectory t, int64_t h) { g_got.push_back(Got{std::move(t), h, 2}); }
static bool g_diag;
static size_t g_next;
static SolverStatus solve_run(PState& st, const SolverConfig& c) {
  g_diag = c.diagnostics;
  size_t k = 0;
  auto set = [&] {
    for (auto& v : st.vars) {
      if (k == g_values.size()) g_values.push_back(sym_real("v"));
      v.SetValue(g_values[k++]);
    }
  };
  for (int i = 0; i < 2; i++) {
    set();
    g_clock += SECOND;
    sleipnir::SolverIterationInfo info;
    info.iteration = i;
    if (st.callback(info)) { SolverStatus r; r.exitCondition = SolverExitCondition::kCallbackRequestedStop; return r; }
  }
  set();
  return {};
}
static void same(const ffi::HolonomicTrajectory& a, const trajopt::HolonomicTrajectory& b) {
  sym_check(a.samples.size() == b.samples.size(), "same_samples");
  for (size_t i = 0; i < a.samples.size() && i < b.samples.size(); i++) {
    auto& p = a.samples[i];
    auto& q = b.samples[i];
    check_near(p.timestamp, q.timestamp, "timestamp");
    check_near(p.x, q.x, "x");
    check_near(p.y, q.y, "y");
    check_near(p.heading, q.heading, "heading");
    check_near(p.velocity_x, q.velocityX, "velocity_x");
    check_near(p.velocity_y, q.velocityY, "velocity_y");
    check_near(p.angular_velocity, q.angularVelocity, "angular_velocity");
    sym_check(p.module_forces_x.size() == q.moduleForcesX.size() && p.module_forces_y.size() == q.moduleForcesY.size(), "forces");
    for (size_t k = 0; k < p.module_forces_x.size() && k < q.moduleForcesX.size(); k++) check_near(p.module_forces_x[k], q.moduleForcesX[k], "forces");
    for (size_t k = 0; k < p.module_forces_y.size() && k < q.moduleForcesY.size(); k++) check_near(p.module_forces_y[k], q.moduleForcesY[k], "forces");
  }
}
SYM_CASE(c24_trajectory) {
  g_clock = 0;
  g_values.clear();
  g_got.clear();
  g_ref.clear();
  auto f = ffi::swerve_path_builder_new();
  trajopt::SwervePathBuilder c;
  base(*f, c);
  size_t cb = sym_choice("callbacks", 0, 2);
  if (cb > 0) { f->add_progress_callback(got1); c.AddIntermediateCallback([](SwerveSolution& s, int64_t h) { g_ref.push_back(Ref{trajopt::HolonomicTrajectory{s}, h, 1}); }); }
  if (cb > 1) { f->add_progress_callback(got2); c.AddIntermediateCallback([](SwerveSolution& s, int64_t h) { g_ref.push_back(Ref{trajopt::HolonomicTrajectory{s}, h, 2}); }); }
  bool diag = sym_choice("diagnostics", 0, 1);
  int64_t handle = sym_choice("handle", 0, 2);
  handle = handle == 0 ? -1 : handle == 1 ? 0x7fffffffffffffffll : 0x100000001ll;
  sleipnir::stub::g_solve = solve_run;
  SwerveTrajectoryGenerator first{c};
  first.Generate();  // settles the process-wide rate limiter
  g_got.clear();
  g_ref.clear();
  if (diag) {  // earlier generations do not matter
    auto o = ffi::swerve_path_builder_new();
    trajopt::SwervePathBuilder unused;
    base(*o, unused);
    o->empty_wpt(0, 4.0, 5.0, 0.5);
    o->add_progress_callback(got1);
    o->generate(false, 77);
    f->generate(false, 5);
    g_got.clear();
  }
  auto t = f->generate(diag, handle);
  sym_check(g_diag == diag, "diagnostics");
  SwerveTrajectoryGenerator g{c, handle};
  auto r = g.Generate(diag);
  sym_check(r.has_value(), "same_outcome");
  if (!r.has_value()) return;
  same(t, trajopt::HolonomicTrajectory{*r});
  sym_check(g_got.size() == g_ref.size() && g_got.size() == 2 * cb, "same_callbacks");
  for (size_t i = 0; i < g_got.size() && i < g_ref.size(); i++) {
    sym_check(g_got[i].id == g_ref[i].id, "same_callbacks");
    sym_check(g_got[i].handle == g_ref[i].handle && g_got[i].handle == handle, "handle");
    same(g_got[i].t, g_ref[i].t);
  }
  sym_reach("end");
}
// cancelling through the layer
static void gotCancel(ffi::HolonomicTrajectory, int64_t) { ffi::cancel_all(); }
SYM_CASE(c24_cancel) {
  g_clock = 0;
  g_values.clear();
  auto f = ffi::swerve_path_builder_new();
  trajopt::SwervePathBuilder c;
  base(*f, c);
  sleipnir::stub::g_solve = solve_run;
  bool cancel = sym_choice("cancel", 0, 1);
  if (cancel) f->add_progress_callback(gotCancel);
  bool thrown = false;
  try {
    f->generate(false, 0);
  } catch (const std::exception& e) {
    thrown = true;
    sym_check(std::string{e.what()} == std::string{sleipnir::ToMessage(SolverExitCondition::kCallbackRequestedStop)}, "message");
  }
  sym_check(thrown == cancel, "cancel_stops_the_generation");
  ffi::cancel_all();
  sym_check(trajopt::GetCancellationFlag() != 0, "cancel_sets_the_flag");
  sym_reach("end");
}
// ------------------------------------------------------- C20 errors
static SolverExitCondition g_exit;
static SolverStatus solve_exit(PState& st, const SolverConfig&) {
  size_t k = 0;
  for (auto& v : st.vars) v.SetValue(0.5 + 0.25 * (double)k++);
  SolverStatus r;
  r.exitCondition = g_exit;
  return r;
}
SYM_CASE(c20_ffi) {
  int e = sym_i32("status");
  sym_assume(sym_and(e >= -7, e <= 2));
  g_exit = static_cast<SolverExitCondition>(e);
  g_clock = 0;
  auto f = ffi::swerve_path_builder_new();
  trajopt::SwervePathBuilder c;
  base(*f, c);
  sleipnir::stub::g_solve = solve_exit;
  bool good = e == 0 || e == 1;
  try {
    auto t = f->generate(false, 0);
    sym_check(good, "failure_is_an_exception");
    SwerveTrajectoryGenerator g{c};
    auto r = g.Generate();
    if (r.has_value()) same(t, trajopt::HolonomicTrajectory{*r});
    sym_reach("solution");
  } catch (const std::exception& x) {
    sym_check(!good, "success_is_a_trajectory");
    sym_check(std::string{x.what()} == std::string{sleipnir::ToMessage(g_exit)}, "exception_carries_the_message");
    sym_reach("error");
  }
}
