// C19: the returned solution; C28: starting values; C29: module order.
#include "gen.hpp"
#if THOROUGH
constexpr int SEG = 3, CNT = 3, MODS = 3, GSEG = 3, GCNT = 3, PERM = 4;
#else
constexpr int SEG = 2, CNT = 3, MODS = 2, GSEG = 2, GCNT = 3, PERM = 3;
#endif
// symbolic guesses
static void guesses(SwervePathBuilder& b, const Shape& s) {
  for (size_t w = 0; w <= s.n.size(); w++) {
    double x = sym_within("guess_x"), y = sym_within("guess_y"), h = sym_within("guess_heading", 4);
    b.WptInitialGuessPoint(w, Pose2d{x, y, {h}});
  }
  b.ControlIntervalCounts(std::vector<size_t>(s.n));
}
// ------------------------------------------------------------------ C19
static std::vector<double> g_first, g_final;
static SolverStatus solve_steps(PState& st, const SolverConfig&) {
  // a few iterates, then the final values
  for (auto& v : st.vars) v.SetValue(sym_real("iterate"));
  for (auto& v : st.vars) g_first.push_back(v.Value());
  for (auto& v : st.vars) v.SetValue(sym_real("final"));
  for (auto& v : st.vars) g_final.push_back(v.Value());
  SolverStatus r;
  if (sym_bool("acceptable")) r.exitCondition = SolverExitCondition::kSolvedToAcceptableTolerance;
  return r;
}
static void solution(Shape s, Robot r) {
  if (s.n.size() == 2) warm(s, r.m.size());
  for (size_t i = 1; i < r.m.size(); i++) sym_assume(sym_all(r.m[i].x != r.m[0].x, r.m[i].y != r.m[0].y));
  SwervePathBuilder b;
  b.SetDrivetrain(drivetrain(r));
  guesses(b, s);
  size_t n = s.total(), mods = r.m.size();
  Problem p{b, s, mods};  // tags
  g_final.clear();
  g_first.clear();
  sleipnir::stub::g_solve = solve_steps;
  auto res = p.gen.Generate();
  sym_check(res.has_value(), "solution_returned");
  if (!res.has_value()) return;
  auto t = view(*res);
  sym_check(t.dt.size() == n - 1, "one_time_step_per_interval");
  bool ok = true;
  for (auto* q : {&t.x, &t.y, &t.c, &t.s, &t.vx, &t.vy, &t.w, &t.ax, &t.ay, &t.al}) ok = ok && q->size() == n;
  sym_check(ok, "one_entry_per_sample");
  bool okf = t.fx.size() == n && t.fy.size() == n;
  for (auto* q : {&t.fx, &t.fy}) for (auto& f : *q) okf = okf && f.size() == mods;
  sym_check(okf, "one_force_per_sample_and_module");
  sym_check(p.mapped, "entries_are_solver_values");
  if (!ok || !okf || t.dt.size() != n - 1 || !p.mapped) return;
  // every entry is the final value of a variable, different entries of different variables
  std::vector<int> used(p.st->vars.size(), 0);
  zipView(p.map, t, [&](const std::vector<size_t>& m, const std::vector<double>& v) {
    for (size_t i = 0; i < m.size(); i++) sym_check(v[i] == g_final[m[i]], "entries_are_final_solver_values");
  });
  for (auto* q : {&p.map.x, &p.map.y, &p.map.c, &p.map.s, &p.map.vx, &p.map.vy, &p.map.w, &p.map.ax, &p.map.ay, &p.map.al})
    for (size_t k : *q) used[k]++;
  for (auto* q : {&p.map.fx, &p.map.fy}) for (auto& f : *q) for (size_t k : f) used[k]++;
  bool distinct = true;
  for (int u : used) distinct = distinct && u <= 1;
  sym_check(distinct, "quantities_do_not_share_values");
  // steps: equal within a segment, different variables in different segments
  bool steps = true;
  for (size_t i = 1; i < n; i++)
    for (size_t j = 1; j < i; j++) steps = steps && ((p.map.dt[i - 1] == p.map.dt[j - 1]) == (segmentOf(s, i) == segmentOf(s, j)));
  for (size_t k : p.map.dt) steps = steps && used[k] == 0;
  sym_check(steps, "time_steps_follow_the_segments");
  // which quantity an entry is: by its starting value, or by the physics
  auto guess = b.CalculateInitialGuess();
  for (auto& e : p.st->eqs) sym_pool(is_zero(e.Value()));
  for (auto& e : p.st->ineqs) sym_pool(is_nonneg(e.Value()));
  auto start = [&](size_t var, double v) { return near(p.start[var], v); };
  auto zero = [&](double e) { return near(e, 0.0); };
  for (size_t i = 0; i < n; i++) {
    auto& m = p.map;
    size_t j = i ? i : 1;
    double h = t.dt[j - 1];
    bool px = zero(t.x[j] - (t.x[j - 1] + t.vx[j] * h)), py = zero(t.y[j] - (t.y[j - 1] + t.vy[j] * h));
    bool sx = start(m.x[i], guess.x[i]), sy = start(m.y[i], guess.y[i]), sc = start(m.c[i], guess.thetacos[i]), ss = start(m.s[i], guess.thetasin[i]);
    sym_check(sym_or(sx, px), "position_x");
    sym_check(sym_or(sy, py), "position_y");
    sym_check(sym_and(sc, ss), "heading");
    double g0 = i ? (guess.x[i] - guess.x[i - 1]) / guess.dt[i] : 0, g1 = i ? (guess.y[i] - guess.y[i - 1]) / guess.dt[i] : 0;
    sym_check(sym_or(start(m.vx[i], g0), px), "velocity_x");
    sym_check(sym_or(start(m.vy[i], g1), py), "velocity_y");
    bool ax = zero(t.vx[j] - (t.vx[j - 1] + t.ax[j] * h)), ay = zero(t.vy[j] - (t.vy[j - 1] + t.ay[j] * h));
    if (i) {
      sym_check(ax, "acceleration_x");
      sym_check(ay, "acceleration_y");
      sym_check(zero(t.w[j] - (t.w[j - 1] + t.al[j] * h)), "angular_rates");
    }
    double fx = 0, fy = 0;
    bool lim = true;
    for (size_t k = 0; k < mods; k++) {
      fx += t.fx[i][k];
      fy += t.fy[i][k];
      lim = sym_and(lim, sqr(r.m[k].t / r.m[k].r) - (sqr(t.fx[i][k]) + sqr(t.fy[i][k])) >= -sym_margin());
    }
    sym_check(zero(fx - r.mass * t.ax[i]), "force_x");
    sym_check(zero(fy - r.mass * t.ay[i]), "force_y");
    sym_check(lim, "forces_in_module_order");
  }
  sym_reach("end");
}
SYM_CASE(c19_solution) {
  Shape s = shape(1, SEG, CNT);
  solution(s, robot(sym_choice("modules", 1, MODS)));
}
// many modules at given places; longer segments
SYM_CASE(c19_many) {
  Robot r = robot(sym_choice("modules", 5, THOROUGH ? 9 : 6));
  for (size_t i = 0; i < r.m.size(); i++) { r.m[i].x = 0.75 - 0.25 * (double)i; r.m[i].y = (i % 2 ? -0.5 : 0.375) + 0.0625 * (double)i; }
  solution(Shape{{1}}, r);
}
SYM_CASE(c19_long) { solution(Shape{sym_choice("long_shape", 0, 1) ? std::vector<size_t>{3, 1, 4} : std::vector<size_t>{1, 5, 2}}, robot(1)); }
// the default of 40 intervals
SYM_CASE(c19_full) { solution(Shape{{40}}, robot(1)); }
// ------------------------------------------------------------------ C28
static void start(Shape s) {
  if (s.n.size() == 2) warm(s, 1);
  Robot r = robot(1);
  SwervePathBuilder b;
  b.SetDrivetrain(drivetrain(r));
  guesses(b, s);
  size_t extra = sym_choice("extra", 0, 1);
  if (extra) {
    std::vector<Pose2d> e;
    double x = sym_within("extra_x"), y = sym_within("extra_y"), h = sym_within("extra_heading", 4);
    e.push_back(Pose2d{x, y, {h}});
    b.SgmtInitialGuessPoints(s.n.size() - 1, e);
  }
  Problem p{b, s, 1};
  if (p.mapped) {
    auto g = b.CalculateInitialGuess();
    size_t n = s.total();
    View<double> t;
    t.fx.resize(p.map.fx.size());
    t.fy.resize(p.map.fy.size());
    zipView(p.map, t, [&](const std::vector<size_t>& a, std::vector<double>& v) { for (size_t k : a) v.push_back(p.start[k]); });
    for (size_t i = 0; i < n; i++) {
      check_near(t.x[i], g.x[i], "position_starts_at_the_guess");
      check_near(t.y[i], g.y[i], "position_starts_at_the_guess");
      check_near(t.c[i], g.thetacos[i], "heading_starts_at_the_guess");
      check_near(t.s[i], g.thetasin[i], "heading_starts_at_the_guess");
      if (!i) {
        for (double v : {t.vx[0], t.vy[0], t.w[0], t.ax[0], t.ay[0], t.al[0]}) check_near(v, 0.0, "rates_start_at_zero");
        continue;
      }
      double h = g.dt[i];
      sym_check(h > 0.0, "guess_time_step_positive");
      check_near(t.vx[i] * h, g.x[i] - g.x[i - 1], "velocity_is_the_finite_difference");
      check_near(t.vy[i] * h, g.y[i] - g.y[i - 1], "velocity_is_the_finite_difference");
      // turn: the shortest one from heading i-1 to heading i
      double turn = t.w[i] * h;
      double c = g.thetacos[i] * g.thetacos[i - 1] + g.thetasin[i] * g.thetasin[i - 1], q = g.thetasin[i] * g.thetacos[i - 1] - g.thetacos[i] * g.thetasin[i - 1];
      sym_check(sym_and(turn <= PI + 1e-9, turn >= -PI - 1e-9), "shortest_turn");
      check_near(turn, std::atan2(q, c), "angular_velocity_is_the_finite_difference");
      check_near(t.ax[i] * h, t.vx[i] - t.vx[i - 1], "acceleration_is_the_finite_difference");
      check_near(t.ay[i] * h, t.vy[i] - t.vy[i - 1], "acceleration_is_the_finite_difference");
      check_near(t.al[i] * h, t.w[i] - t.w[i - 1], "acceleration_is_the_finite_difference");
    }
    for (double v : p.start) sym_check(sym_finite_f64(v), "starting_values_finite");
  }
  sym_reach("end");
}
SYM_CASE(c28_start) { start(shape(1, GSEG, GCNT)); }
SYM_CASE(c28_full) { start(Shape{sym_choice("long_shape", 0, 1) ? std::vector<size_t>{40} : std::vector<size_t>{9, 2, 4}}); }
// ------------------------------------------------------------------ C29
SYM_CASE(c29_order) {
  Shape s = shape(1, 2, 1);
  size_t mods = sym_choice("modules", 2, s.n.size() > 1 ? 2 : PERM);
  if (s.n.size() == 2) warm(s, mods);
  Robot r = robot(mods), q = r;
  // every transposition and one rotation
  size_t how = sym_choice("order", 0, mods * (mods - 1) / 2);
  std::vector<size_t> perm(mods);
  for (size_t i = 0; i < mods; i++) perm[i] = i;
  size_t k = 0;
  bool swapped = false;
  for (size_t i = 0; i < mods; i++)
    for (size_t j = 0; j < i; j++) if (k++ == how) { std::swap(perm[i], perm[j]); swapped = true; }
  if (!swapped) for (size_t i = 0; i < mods; i++) perm[i] = (i + 1) % mods;
  for (size_t i = 0; i < mods; i++) q.m[i] = r.m[perm[i]];
  SwervePathBuilder a, b;
  a.SetDrivetrain(drivetrain(r));
  b.SetDrivetrain(drivetrain(q));
  waypoints(a, s);
  waypoints(b, s);
  Problem p1{a, s, mods}, p2{b, s, mods};
  sym_check(p1.mapped && p2.mapped, "solution_holds_every_sample");
  if (!p1.mapped || !p2.mapped) return;
  p1.symbols();
  auto t = p1.values(), u = t;
  for (size_t i = 0; i < t.fx.size(); i++)
    for (size_t m = 0; m < mods; m++) { u.fx[i][m] = t.fx[i][perm[m]]; u.fy[i][m] = t.fy[i][perm[m]]; }
  p2.assign(u);
  auto e1 = p1.eqs(), i1 = p1.ineqs(), e2 = p2.eqs(), i2 = p2.ineqs();
  auto implied = [&](const std::vector<double>& ea, const std::vector<double>& ia, const std::vector<double>& eb, const std::vector<double>& ib) {
    for (double e : ea) sym_pool(is_zero(e));
    for (double e : ia) sym_pool(is_nonneg(e));
    for (double e : eb) sym_check(has(ea, e) || near(e, 0.0), "same_trajectories_feasible");
    for (double e : ib) sym_check(has(ia, e) || e >= -sym_margin(), "same_trajectories_feasible");
    sym_pool_clear();
  };
  implied(e1, i1, e2, i2);
  implied(e2, i2, e1, i1);
  sym_check(p1.st->objective.has_value() == p2.st->objective.has_value() && p1.st->maximize == p2.st->maximize, "same_objective");
  if (p1.st->objective.has_value() && p2.st->objective.has_value()) check_near(p1.st->objective->Value(), p2.st->objective->Value(), "same_objective");
  sym_reach("end");
}
