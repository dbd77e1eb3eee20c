// C20: failures and successes; C21: cancellation; C22: progress; C30: ownership.
#include "gen.hpp"
#include <chrono>
#include <trajopt/util/Cancellation.hpp>
using sleipnir::SolverIterationInfo;
// the library's clock
static int64_t g_clock;
namespace std::chrono::inline _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{g_clock}}; }
}  // namespace std::chrono::inline _V2
constexpr int64_t SECOND = 1000000000;
static bool iterate(PState& st, int i) {
  SolverIterationInfo info;
  info.iteration = i;
  return st.callback(info);
}
static void fixedPath(SwervePathBuilder& b, size_t segments, size_t count) {
  SwerveDrivetrain d;
  d.mass = 40;
  d.moi = 5;
  d.modules.push_back(SwerveModule{{0.5, 0.4}, 0.05, 60, 2});
  d.modules.push_back(SwerveModule{{-0.5, 0.4}, 0.05, 60, 2});
  b.SetDrivetrain(d);
  Shape s;
  for (size_t i = 0; i < segments; i++) s.n.push_back(count);
  waypoints(b, s);
}
// ------------------------------------------------------------------ C20
static SolverExitCondition g_exit;
static int g_iters;
static bool g_stopped;
// iterations a second apart, so that the callbacks run
static SolverStatus solve_exit(PState& st, const SolverConfig&) {
  for (auto& v : st.vars) v.SetValue(0.25);
  for (int i = 0; i < g_iters && !g_stopped; i++) {
    g_stopped = iterate(st, i);
    g_clock += SECOND;
  }
  SolverStatus r;
  r.exitCondition = g_stopped ? SolverExitCondition::kCallbackRequestedStop : g_exit;
  return r;
}
SYM_CASE(c20_status) {
  int e = sym_i32("status");
  sym_assume(sym_and(e >= -7, e <= 2));
  g_exit = static_cast<SolverExitCondition>(e);
  g_iters = (int)sym_choice("iterations", 0, 1);
  g_clock = 0;
  g_stopped = false;
  bool stop = false;
  if (g_iters) {
    stop = sym_bool("cancel_in_callback");
  } else {  // an earlier generation and its failure do not matter
    SwervePathBuilder o;
    fixedPath(o, 2, 1);
    SwerveTrajectoryGenerator earlier{o};
    sleipnir::stub::g_solve = [](PState&, const SolverConfig&) { SolverStatus r; r.exitCondition = SolverExitCondition::kLocallyInfeasible; return r; };
    sym_check(!earlier.Generate().has_value(), "solution_iff_success");
  }
  SwervePathBuilder b;
  fixedPath(b, 1, 2);
  b.AddIntermediateCallback([stop](SwerveSolution&, int64_t) { if (stop) trajopt::GetCancellationFlag() = 1; });
  SwerveTrajectoryGenerator g{b};
  sleipnir::stub::g_solve = solve_exit;
  if (g_iters) g_iters = 2;
  auto res = g.Generate(sym_bool("diagnostics"));
  auto end = g_stopped ? SolverExitCondition::kCallbackRequestedStop : g_exit;
  bool good = end == SolverExitCondition::kSuccess || end == SolverExitCondition::kSolvedToAcceptableTolerance;
  sym_check(res.has_value() == good, "solution_iff_success");
  if (!good && !res.has_value()) {
    sym_check(res.error() == std::string{sleipnir::ToMessage(end)}, "error_is_the_message_of_the_status");
    sym_reach("error");
  }
  if (good && res.has_value()) {
    sym_check(res->x.size() == 3, "solution_of_this_path");
    sym_reach("solution");
  }
  if (g_stopped) sym_reach("stopped");
}
// ------------------------------------------------------------------ C21
#if THOROUGH
constexpr int RUNS = 3, ITERS = 3;
#else
constexpr int RUNS = 2, ITERS = 2;
#endif
static bool g_requested, g_bad_spurious, g_bad_missed, g_stop, g_build;
static SwervePathBuilder* g_other;
// a request, from this thread or from another one
static bool g_elsewhere;
static void maybeCancel(const char* n) {
  if (sym_bool(n)) {
    auto request = [] { trajopt::GetCancellationFlag() = 1; };
    if (g_elsewhere) sym_on_thread(request);
    else request();
    g_requested = true;
  }
}
static SolverStatus solve_cancel(PState& st, const SolverConfig&) {
  SolverStatus r;
  for (int i = 0; i < ITERS; i++) {
    maybeCancel("cancel_between");
    if (g_build) { SwerveTrajectoryGenerator other{*g_other}; }
    bool before = g_requested;
    bool stop = iterate(st, i);
    g_clock += SECOND;
    if (before && !stop) g_bad_missed = true;
    if (stop && !g_requested) g_bad_spurious = true;
    if (stop) {
      g_stop = true;
      r.exitCondition = SolverExitCondition::kCallbackRequestedStop;
      return r;
    }
  }
  return r;
}
static bool g_in_callback;
SYM_CASE(c21_runs) {
  sym_check(trajopt::GetCancellationFlag() == 0, "initially_clear");
  static const void* there;
  sym_on_thread([] { there = &trajopt::GetCancellationFlag(); });
  sym_check(there == &trajopt::GetCancellationFlag(), "one_flag");
  SwervePathBuilder b, o;
  fixedPath(b, 1, 1);
  fixedPath(o, 1, 1);
  g_other = &o;
  g_clock = 0;
  g_build = sym_choice("construct_others", 0, 1) == 1;
  g_elsewhere = sym_choice("from_another_thread", 0, 1) == 1;
  g_in_callback = sym_choice("cancel_in_callbacks", 0, 1) == 1;
  b.AddIntermediateCallback([](SwerveSolution&, int64_t) { if (g_in_callback) maybeCancel("cancel_in_callback"); });
  SwerveTrajectoryGenerator g{b}, h{o};
  sleipnir::stub::g_solve = solve_cancel;
  for (int run = 0; run < RUNS; run++) {
    maybeCancel("cancel_before");
    if (g_build) { SwerveTrajectoryGenerator other{o}; }
    g_requested = g_bad_missed = g_bad_spurious = g_stop = false;
    auto& which = run == 1 && !g_in_callback ? h : g;
    auto res = which.Generate();
    sym_check(!g_bad_missed, "request_stops_the_next_iteration");
    sym_check(!g_bad_spurious, "no_stop_without_request");
    sym_check(res.has_value() == !g_stop, "stop_is_a_failure");
    if (g_stop) sym_reach("stopped");
    else sym_reach("finished");
  }
}
// one generation during another: a request after both have started stops both
static SwerveTrajectoryGenerator* g_inner;
static int g_depth;
static SolverStatus solve_nested(PState& st, const SolverConfig&) {
  SolverStatus r;
  bool outer = g_depth++ == 0;
  for (int i = 0; i < 3; i++) {
    if (outer && i == 1) {
      bool stopped = !g_inner->Generate().has_value();
      sym_check(stopped == g_requested, "request_stops_the_inner_generation");
      if (stopped) sym_reach("both");
    }
    if (!outer || i > 1) maybeCancel("cancel_between");
    bool stop = iterate(st, i);
    g_clock += SECOND;
    sym_check(stop == g_requested, "request_stops_every_generation");
    if (stop) {
      r.exitCondition = SolverExitCondition::kCallbackRequestedStop;
      break;
    }
  }
  g_depth--;
  return r;
}
SYM_CASE(c21_nested) {
  SwervePathBuilder b, o;
  fixedPath(b, 1, 1);
  fixedPath(o, 1, 1);
  g_clock = 0;
  g_elsewhere = sym_choice("from_another_thread", 0, 1) == 1;
  SwerveTrajectoryGenerator g{b}, h{o};
  g_inner = &h;
  sleipnir::stub::g_solve = solve_nested;
  auto res = g.Generate();
  sym_check(res.has_value() == !g_requested, "stop_is_a_failure");
  sym_reach("end");
}
// ------------------------------------------------------------------ C22
#if THOROUGH
constexpr int STEPS = 5;
#else
constexpr int STEPS = 4;
#endif
constexpr int64_t FRAME_LO = 16666666, FRAME_HI = 16666667;  // ns around 1/60 s
struct Call { int id; int64_t handle; SwerveSolution sol; };
static std::vector<Call> g_log;
static Problem* g_p;
static size_t g_callbacks;
static int64_t g_handle, g_last, g_first;
static bool g_any, g_published;
static int g_steps;
static bool sameIterate(const SwerveSolution& sol, const Problem& p) {
  auto t = view(sol);
  bool ok = t.fx.size() == p.map.fx.size() && t.fy.size() == p.map.fy.size();
  zipView(p.map, t, [&](const std::vector<size_t>& m, const std::vector<double>& v) {
    ok = ok && m.size() == v.size();
    for (size_t i = 0; ok && i < m.size(); i++) ok = v[i] == p.st->vars[m[i]].Value();
  });
  return ok;
}
static SolverStatus solve_clock(PState& st, const SolverConfig&) {
  static int round = 0;
  for (int i = 0; i < g_steps; i++) {
    int64_t d = sym_i64("elapsed");
    sym_assume(sym_and(d >= 0, d <= 100 * SECOND));
    g_clock += d;
    ++round;
    for (size_t k = 0; k < st.vars.size(); k++) st.vars[k].SetValue((double)(1000 * round + k));
    g_log.clear();
    iterate(st, i);
    if (!g_any) { g_any = true; g_first = g_clock; }
    bool published = !g_log.empty();
    if (published) {
      sym_check(g_log.size() == g_callbacks, "each_callback_exactly_once");
      for (size_t k = 0; k < g_log.size(); k++) {
        sym_check(g_log[k].id == (int)k, "in_registration_order");
        sym_check(g_log[k].handle == g_handle, "with_the_handle");
        sym_check(sameIterate(g_log[k].sol, *g_p), "with_the_current_iterate");
      }
      if (g_published) sym_check(g_clock - g_last >= FRAME_LO, "publications_apart");
      g_published = true;
      g_last = g_clock;
      sym_reach("published");
    } else {
      sym_check(g_clock - (g_published ? g_last : g_first) < FRAME_HI, "published_when_due");
      sym_reach("withheld");
    }
  }
  return {};
}
static void clocked(int runs, int steps) {
  g_clock = 1000;
  g_any = g_published = false;
  Shape s;
  s.n = {2, 1};
  size_t cb = sym_choice("callbacks", 1, 3);
  SwervePathBuilder b1, b2;
  fixedPath(b1, 2, 1);
  fixedPath(b2, 2, 1);
  b1.ControlIntervalCounts({2, 1});
  b2.ControlIntervalCounts({2, 1});
  for (auto* b : {&b1, &b2})
    for (size_t k = 0; k < cb; k++)
      b->AddIntermediateCallback([k](SwerveSolution& sol, int64_t h) {
        g_log.push_back(Call{(int)k, h, sol});
        sol.x.clear();  // what a callback does to its solution is its own business only if nothing else sees it
        sol.x = g_log.back().sol.x;
      });
  int64_t h1 = sym_i64("handle"), h2 = sym_i64("handle");
  Problem p1{b1, s, 2, h1}, p2{b2, s, 2, h2};
  sym_check(p1.mapped && p2.mapped, "solution_holds_every_sample");
  if (!p1.mapped || !p2.mapped) return;
  g_callbacks = cb;
  g_steps = steps;
  sleipnir::stub::g_solve = solve_clock;
  for (int r = 0; r < runs; r++) {
    g_p = r == 1 ? &p2 : &p1;
    g_handle = r == 1 ? h2 : h1;
    g_p->gen.Generate();
  }
  sym_reach("end");
}
SYM_CASE(c22_one) { clocked(1, STEPS); }
SYM_CASE(c22_two) { clocked(THOROUGH ? 3 : 2, 2); }
// ------------------------------------------------------------------ C30
static std::vector<int> g_calls;
static void compareProblems(Problem& p1, Problem& p2, const char* label) {
  sym_check(p1.mapped && p2.mapped, "solution_holds_every_sample");
  if (!p1.mapped || !p2.mapped) return;
  p1.symbols();
  p2.assign(p1.values());
  auto e1 = p1.eqs(), i1 = p1.ineqs(), e2 = p2.eqs(), i2 = p2.ineqs();
  auto implied = [&](const std::vector<double>& ea, const std::vector<double>& ia, const std::vector<double>& eb, const std::vector<double>& ib) {
    for (double e : ea) sym_pool(is_zero(e));
    for (double e : ia) sym_pool(is_nonneg(e));
    for (double e : eb) sym_check(has(ea, e) || near(e, 0.0), label);
    for (double e : ib) sym_check(has(ia, e) || e >= -sym_margin(), label);
    sym_pool_clear();
  };
  implied(e1, i1, e2, i2);
  implied(e2, i2, e1, i1);
  sym_check(p1.st->objective.has_value() == p2.st->objective.has_value() && p1.st->maximize == p2.st->maximize, label);
  if (p1.st->objective.has_value() && p2.st->objective.has_value()) check_near(p1.st->objective->Value(), p2.st->objective->Value(), label);
  // starting values
  View<double> s1, s2;
  for (auto* q : {&s1, &s2}) { q->fx.resize(p1.map.fx.size()); q->fy.resize(p1.map.fy.size()); }
  auto pick = [](Problem& p, View<double>& v) {
    zipView(p.map, v, [&](const std::vector<size_t>& a, std::vector<double>& o) { for (size_t k : a) o.push_back(p.start[k]); });
  };
  pick(p1, s1);
  pick(p2, s2);
  zipView(s1, s2, [&](const std::vector<double>& a, const std::vector<double>& c) {
    sym_check(a.size() == c.size(), label);
    for (size_t i = 0; i < a.size() && i < c.size(); i++) check_near(a[i], c[i], label);
  });
}
static std::vector<int> callsOf(SwerveTrajectoryGenerator& g) {
  sleipnir::stub::g_solve = [](PState& st, const SolverConfig&) {
    for (int i = 0; i < 2; i++) { g_clock += SECOND; iterate(st, i); }
    return SolverStatus{};
  };
  g_calls.clear();
  g.Generate();
  // a publication calls each registered callback once; the iterations are a
  // second apart, so the last of them publishes
  return g_calls;
}
static bool calledOnly(const std::vector<int>& c, std::vector<int> ids) {
  if (ids.empty()) return c.empty();
  if (c.empty() || c.size() % ids.size()) return false;
  for (size_t i = 0; i < c.size(); i++) if (c[i] != ids[i % ids.size()]) return false;
  return true;
}
static void change(SwervePathBuilder& b, size_t how, const Shape& s) {
  size_t last = s.n.size();
  switch (how) {
    case 0: b.AddIntermediateCallback([](SwerveSolution&, int64_t) { g_calls.push_back(9); }); break;
    case 1: { double x = sym_real("c_x"), y = sym_real("c_y"), h = sym_real("c_h"); b.PoseWpt(0, x, y, h); break; }
    case 2: { double m = sym_real("c_max"); b.SgmtConstraint(0, last, trajopt::LinearVelocityMaxMagnitudeConstraint{m}); break; }
    case 3: { Robot r = robot(2); b.SetDrivetrain(drivetrain(r)); break; }
    case 4: b.ControlIntervalCounts(std::vector<size_t>(last, 3)); break;
    case 5: { double x = sym_real("c_x"), y = sym_real("c_y"); b.WptInitialGuessPoint(last + 1, Pose2d{x, y, {0.5}}); break; }
    case 6: {
      double x = sym_real("c_x"), y = sym_real("c_y");
      b.AddBumpers({.safetyDistance = 0.1, .points = {{0.5, 0.5}, {-0.5, 0.5}}});
      b.WptObstacle(0, {.safetyDistance = 0.2, .points = {{x, y}}});
      break;
    }
    default: { std::vector<Pose2d> e; double x = sym_real("c_x"); e.push_back(Pose2d{x, 1.0, {0.5}}); b.SgmtInitialGuessPoints(0, e); break; }
  }
}
static void original(SwervePathBuilder& b, const Robot& r, const Shape& s, const double* q) {
  b.SetDrivetrain(drivetrain(r));
  waypoints(b, s);
  b.WptInitialGuessPoint(0, Pose2d{q[0], q[1], {0.75}});
  b.WptConstraint(s.n.size(), trajopt::TranslationEqualityConstraint{q[2], q[3]});
  b.SgmtConstraint(0, 1, trajopt::AngularVelocityMaxMagnitudeConstraint{q[4]});
  b.AddIntermediateCallback([](SwerveSolution&, int64_t) { g_calls.push_back(1); });
  b.AddIntermediateCallback([](SwerveSolution&, int64_t) { g_calls.push_back(2); });
}
SYM_CASE(c30_own) {
  Shape s = shape(1, 2, THOROUGH ? 2 : 1);
  Robot r = robot(2);
  double q[5];
  for (auto& v : q) v = sym_real("q");
  g_clock = 0;
  SwervePathBuilder b;
  original(b, r, s, q);
  Problem ref{b, s, 2};
  size_t how = sym_choice("change", 0, 7), whom = sym_choice("whom", 0, 1);
  SwervePathBuilder copy = b;
  if (whom == 0) {
    change(b, how, s);  // the builder itself
    SwerveTrajectoryGenerator other{b, 7};
  } else {
    SwervePathBuilder c2 = b;
    change(c2, how, s);  // a copy
    SwerveTrajectoryGenerator other{c2, 7};
  }
  SwervePathBuilder fresh;
  original(fresh, r, s, q);
  // the generator built before, the one from an untouched copy, and one from scratch
  Problem p1{whom == 0 ? copy : b, s, 2}, p2{fresh, s, 2};
  compareProblems(ref, p1, "building_again_is_equivalent");
  compareProblems(ref, p2, "generator_keeps_its_path");
  sym_check(calledOnly(callsOf(ref.gen), {1, 2}), "callbacks_of_that_moment");
  sym_check(calledOnly(callsOf(p1.gen), {1, 2}), "callbacks_of_that_moment");
  sym_reach("end");
}
// the builder is the same before and after a generator is built from it
SYM_CASE(c30_builder) {
  Shape s = shape(1, 2, 2);
  Robot r = robot(2);
  double q[5];
  for (auto& v : q) v = sym_real("q");
  g_clock = 0;
  SwervePathBuilder b, u;
  original(b, r, s, q);
  original(u, r, s, q);
  {
    Problem p{b, s, 2};
    p.symbols();
    callsOf(p.gen);
  }
  auto& pb = b.GetPath();
  auto& pu = u.GetPath();
  sym_check(b.GetControlIntervalCounts() == u.GetControlIntervalCounts(), "builder_unchanged");
  sym_check(pb.waypoints.size() == pu.waypoints.size() && pb.callbacks.size() == pu.callbacks.size() && pb.drivetrain.modules.size() == pu.drivetrain.modules.size(), "builder_unchanged");
  for (size_t w = 0; w < pb.waypoints.size() && w < pu.waypoints.size(); w++)
    sym_check(pb.waypoints[w].waypointConstraints.size() == pu.waypoints[w].waypointConstraints.size() &&
                  pb.waypoints[w].segmentConstraints.size() == pu.waypoints[w].segmentConstraints.size(), "builder_unchanged");
  auto gb = b.CalculateInitialGuess(), gu = u.CalculateInitialGuess();
  auto vb = view(gb), vu = view(gu);
  vb.fx.clear(); vb.fy.clear(); vu.fx.clear(); vu.fy.clear();
  zipView(vb, vu, [&](const std::vector<double>& x, const std::vector<double>& y) {
    sym_check(x.size() == y.size(), "builder_unchanged");
    for (size_t i = 0; i < x.size() && i < y.size(); i++) check_near(x[i], y[i], "builder_unchanged");
  });
  Problem pa{b, s, 2}, pc{u, s, 2};
  compareProblems(pa, pc, "builder_unchanged");
  sym_reach("end");
}
// a moved or copied generator behaves as the original
SYM_CASE(c30_move) {
  Shape s = shape(1, 2, 2);
  Robot r = robot(1);
  double q[5];
  for (auto& v : q) v = sym_real("q");
  g_clock = 0;
  static std::vector<std::vector<double>> seen;
  static PState* state;
  static bool ok;
  seen.clear();
  ok = true;
  SwervePathBuilder b;
  original(b, r, s, q);
  b.AddIntermediateCallback([](SwerveSolution& sol, int64_t h) { seen.push_back(sol.x); ok = ok && h == 5; });
  auto first = new SwerveTrajectoryGenerator{b, 5};
  bool copied = sym_choice("copied", 0, 1) == 1;
  SwerveTrajectoryGenerator second = copied ? SwerveTrajectoryGenerator{*first} : SwerveTrajectoryGenerator{std::move(*first)};
  delete first;
  sleipnir::stub::g_solve = [](PState& st, const SolverConfig&) {
    for (int i = 0; i < 2; i++) {
      g_clock += SECOND;
      for (auto& v : st.vars) v.SetValue(sym_real("iterate"));
      seen.clear();
      iterate(st, i);
    }
    return SolverStatus{};
  };
  auto res = second.Generate();
  sym_check(res.has_value(), "moved_generator_generates");
  sym_check(seen.size() == 1 && ok, "moved_generator_publishes");
  if (!res.has_value() || seen.size() != 1) return;
  sym_check(seen[0].size() == res->x.size(), "moved_generator_publishes");
  for (size_t i = 0; i < seen[0].size() && i < res->x.size(); i++) check_near(seen[0][i], res->x[i], "moved_generator_publishes");
  sym_reach("end");
}
