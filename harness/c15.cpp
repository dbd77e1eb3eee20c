// C15-C18: what the optimization problem of a path demands of a trajectory.
#include "gen.hpp"
#if THOROUGH
constexpr int SEG = 3, CNT = 2, MODS = 3, WMODS = 4;
#else
constexpr int SEG = 2, CNT = 2, MODS = 2, WMODS = 3;
#endif
// ------------------------------------------------------------------ specification
struct Rel { double v; bool eq; };  // v == 0 or v >= 0
static std::vector<Rel> motion(const View<double>& t, const Shape& s, const std::vector<double>& step) {
  std::vector<Rel> r;
  for (size_t i = 1; i < s.total(); i++) {
    double h = step[i - 1];
    r.push_back({t.x[i] - (t.x[i - 1] + t.vx[i] * h), true});
    r.push_back({t.y[i] - (t.y[i - 1] + t.vy[i] * h), true});
    r.push_back({t.vx[i] - (t.vx[i - 1] + t.ax[i] * h), true});
    r.push_back({t.vy[i] - (t.vy[i - 1] + t.ay[i] * h), true});
    r.push_back({t.w[i] - (t.w[i - 1] + t.al[i] * h), true});
    // turn from sample i-1 to i is w*h (mod half a turn)
    double c = t.c[i] * t.c[i - 1] + t.s[i] * t.s[i - 1], q = t.s[i] * t.c[i - 1] - t.c[i] * t.s[i - 1];
    r.push_back({q * std::cos(t.w[i] * h) - c * std::sin(t.w[i] * h), true});
  }
  return r;
}
static std::vector<Rel> dynamics(const View<double>& t, const Shape& s, const Robot& b) {
  std::vector<Rel> r;
  for (size_t i = 0; i < s.total(); i++) {
    double fx = 0, fy = 0, tau = 0;
    for (size_t m = 0; m < b.m.size(); m++) {
      double X = t.fx[i][m], Y = t.fy[i][m];
      fx += X;
      fy += Y;
      double px = b.m[m].x * t.c[i] - b.m[m].y * t.s[i], py = b.m[m].x * t.s[i] + b.m[m].y * t.c[i];
      tau += px * Y - py * X;
    }
    r.push_back({fx - b.mass * t.ax[i], true});
    r.push_back({fy - b.mass * t.ay[i], true});
    r.push_back({tau - b.moi * t.al[i], true});
  }
  return r;
}
static std::vector<Rel> limits(const View<double>& t, const Shape& s, const Robot& b) {
  std::vector<Rel> r;
  for (size_t i = 0; i < s.total(); i++) {
    double u = t.c[i] * t.vx[i] + t.s[i] * t.vy[i], v = -t.s[i] * t.vx[i] + t.c[i] * t.vy[i];
    for (size_t m = 0; m < b.m.size(); m++) {
      auto& M = b.m[m];
      r.push_back({sqr(M.r * M.w) - (sqr(u - M.y * t.w[i]) + sqr(v + M.x * t.w[i])), false});
      r.push_back({sqr(M.t / M.r) - (sqr(t.fx[i][m]) + sqr(t.fy[i][m])), false});
    }
  }
  return r;
}
// dt >= 0, and no wheel travels further than the smallest nonzero spacing
static std::vector<Rel> steps(const std::vector<double>& dt) {
  std::vector<Rel> r;
  for (double h : dt) r.push_back({h, false});
  return r;
}
static bool travel(double dt, const Robot& b, double margin) {
  bool ok = true;
  for (auto& k : b.m)
    for (size_t i = 0; i < b.m.size(); i++)
      for (size_t j = 0; j < i; j++)
        for (double d : {b.m[i].x - b.m[j].x, b.m[i].y - b.m[j].y})
          ok = sym_and(ok, sym_or(d == 0.0, sym_or(sym_and(d > 0.0, dt * k.r * k.w - d <= margin), sym_and(d < 0.0, dt * k.r * k.w + d <= margin))));
  return ok;
}
static void assume(const std::vector<Rel>& r) { for (auto& e : r) sym_pool(e.eq ? is_zero(e.v) : is_nonneg(e.v)); }
static void demand(const std::vector<Rel>& r, const char* label) {
  for (auto& e : r) if (e.eq) check_near(e.v, 0.0, label); else check_ge(e.v, 0.0, label);
}
// ------------------------------------------------------------------ attribution
enum Group { MOTION = 1, DYN = 2, LIMIT = 4, STEP = 8, ALL = 15 };
enum Kind { K_X, K_V, K_A, K_F, K_DT };
struct Supp { std::vector<size_t> vars; };
static void leaves(const sleipnir::stub::Node* n, PState* st, std::vector<const sleipnir::stub::Node*>& seen, std::vector<size_t>& out) {
  for (auto* q : seen) if (q == n) return;
  seen.push_back(n);
  if (n->op == sleipnir::stub::LEAF) {
    for (size_t k = 0; k < st->vars.size(); k++) if (st->vars[k].expr == n) { out.push_back(k); return; }
    return;
  }
  if (n->a) leaves(n->a, st, seen, out);
  if (n->b) leaves(n->b, st, seen, out);
}
struct Class { std::vector<int> kind; std::vector<size_t> sample, module; };
static Class classes(const Problem& p) {
  Class c;
  c.kind.assign(p.st->vars.size(), -1);
  c.sample.assign(p.st->vars.size(), 0);
  c.module.assign(p.st->vars.size(), 0);
  auto set = [&](const std::vector<size_t>& v, Kind k) { for (size_t i = 0; i < v.size(); i++) { c.kind[v[i]] = k; c.sample[v[i]] = i; } };
  auto& m = p.map;
  set(m.x, K_X); set(m.y, K_X); set(m.c, K_X); set(m.s, K_X);
  set(m.vx, K_V); set(m.vy, K_V); set(m.w, K_V);
  set(m.ax, K_A); set(m.ay, K_A); set(m.al, K_A);
  for (size_t i = 0; i < m.fx.size(); i++)
    for (auto* f : {&m.fx[i], &m.fy[i]})
      for (size_t k = 0; k < f->size(); k++) { c.kind[(*f)[k]] = K_F; c.sample[(*f)[k]] = i; c.module[(*f)[k]] = k; }
  set(m.dt, K_DT);
  return c;
}
static int group(const Variable& e, bool eq, const Problem& p, const Class& c) {
  std::vector<const sleipnir::stub::Node*> seen;
  std::vector<size_t> v;
  leaves(e.expr, p.st, seen, v);
  bool k[5] = {};
  bool multiSample = false, multiModule = false, unknown = v.empty();
  long sample = -1, module = -1;
  for (size_t q : v) {
    if (c.kind[q] < 0) { unknown = true; continue; }
    k[c.kind[q]] = true;
    if (c.kind[q] == K_DT) continue;
    if (sample >= 0 && sample != (long)c.sample[q]) multiSample = true;
    sample = c.sample[q];
    if (c.kind[q] == K_F) {
      if (module >= 0 && module != (long)c.module[q]) multiModule = true;
      module = c.module[q];
    }
  }
  if (unknown) return ALL;
  bool state = k[K_X] || k[K_V] || k[K_A] || k[K_F];
  if (k[K_DT] && !state) return STEP | MOTION;
  if (k[K_F]) {
    if (k[K_DT] || multiSample) return ALL;
    if (eq) return DYN;
    return k[K_A] || multiModule ? ALL : LIMIT | DYN;
  }
  if (k[K_DT] || multiSample) return eq ? MOTION : ALL;
  if (k[K_A]) return eq ? DYN | MOTION : ALL;
  return MOTION | LIMIT;
}
// ------------------------------------------------------------------ cases
static Robot rectangle() {
  Robot r = robot(1);
  double a = sym_real("half_length", 2), b = sym_real("half_width", 2);
  sym_assume(sym_all(a > 0.0, b > 0.0, a != b));
  for (int i = 1; i < 4; i++) {
    Mod m = r.m[0];
    m.r = sym_real("wheel_radius", 1); m.w = sym_real("wheel_speed"); m.t = sym_real("wheel_torque", 5);
    sym_assume(sym_all(m.r > 0.0, m.w > 0.0, m.t > 0.0));
    r.m.push_back(m);
  }
  r.m[0].x = a; r.m[0].y = b; r.m[1].x = a; r.m[1].y = -b; r.m[2].x = -a; r.m[2].y = b; r.m[3].x = -a; r.m[3].y = -b;
  return r;
}
struct Setup { Robot r; Shape s; SwervePathBuilder b; };
static void setup(Setup& u, size_t maxSeg, size_t maxCnt, size_t minMods, size_t maxMods) {
  u.s = shape(1, maxSeg, maxCnt);
  // modules anywhere, or one module more at the corners of a rectangle
  size_t m = sym_choice("modules", minMods, maxMods + (maxMods > 1));
  if (u.s.n.size() > 1) warm(u.s, m > maxMods ? 4 : m);
  u.r = m > maxMods ? rectangle() : robot(m);
  u.b.SetDrivetrain(drivetrain(u.r));
  waypoints(u.b, u.s);
}
// beyond the small shapes: many modules on one interval, or longer segments
enum Extent { SMALL, MANY, LONG, FULL };  // FULL: the default 40 intervals
static void setupAt(Setup& u, Extent e, size_t maxSeg, size_t maxCnt, size_t minMods, size_t maxMods) {
  if (e == SMALL) return setup(u, maxSeg, maxCnt, minMods, maxMods);
  if (e == MANY) {
    u.s.n = {1};
    u.r = robot(sym_choice("modules", 5, THOROUGH ? 9 : 7));
    warm(u.s, u.r.m.size());
    // at given places (arbitrary places of few modules are the small shapes)
    for (size_t i = 0; i < u.r.m.size(); i++) { u.r.m[i].x = 0.75 - 0.25 * (double)i; u.r.m[i].y = (i % 2 ? -0.5 : 0.375) + 0.0625 * (double)i; }
  } else if (e == FULL) {
    u.s.n = {40};
    u.r = robot(1);
  } else {
    u.s.n = sym_choice("long_shape", 0, 1) ? std::vector<size_t>{3, 1, 4} : std::vector<size_t>{1, 5, 2};
    u.r = robot(1);
    if (u.s.n[0] == 1) warm(u.s, 1);
  }
  u.b.SetDrivetrain(drivetrain(u.r));
  waypoints(u.b, u.s);
}
// assume what the problem posts, look at the solution returned
static void sound(int g, int unit, Extent ext = SMALL) {
  Setup u;
  setupAt(u, ext, SEG, g == MOTION ? CNT : 1, 1, g == MOTION ? 1 : MODS);
  size_t fix = 0;
  if (unit == 1) u.b.PoseWpt(fix = sym_choice("fixed_pose_at", 0, u.s.n.size()), 1.5, 2.5, 0.75);
  SwerveTrajectoryGenerator gen{u.b};
  PState* st = sleipnir::stub::g_states.back();
  sleipnir::stub::g_solve = solve_free;
  auto r = gen.Generate();
  if (!r.has_value()) return;
  auto t = view(*r);
  bool ok = shaped(t, u.s, u.r.m.size());
  sym_check(ok, "solution_holds_every_sample");
  if (!ok) return;
  for (auto& e : st->eqs) sym_pool(is_zero(e.Value()));
  for (auto& e : st->ineqs) sym_pool(is_nonneg(e.Value()));
  if (g == MOTION) {
    if (unit == 1) {
      // each heading in turn, from the fixed one outwards
      size_t at = 0;
      for (size_t k = 0; k < fix; k++) at += u.s.n[k];
      auto unitAt = [&](size_t i) {
        double e = t.c[i] * t.c[i] + t.s[i] * t.s[i] - 1.0;
        sym_check(is_zero(e), "unit_heading");
        sym_pool(is_zero(e));  // just shown
      };
      for (size_t i = at; i < u.s.total(); i++) unitAt(i);
      for (size_t i = at; i-- > 0;) unitAt(i);
    } else if (unit == 2) {
      for (size_t i = 0; i < u.s.total(); i++) check_near(t.c[i] * t.c[i] + t.s[i] * t.s[i], 1.0, "unit_heading_without_fixed_heading");
    } else {
      demand(motion(t, u.s, t.dt), "equation_of_motion");
    }
  }
  if (g == DYN) { unitHeadings(t); demand(dynamics(t, u.s, u.r), "newton_euler"); }
  if (g == LIMIT) { unitHeadings(t); demand(limits(t, u.s, u.r), "module_limit"); }
  sym_reach("end");
}
// assume the physics, look at what the problem posts
static void complete(int g, Extent ext = SMALL) {
  Setup u;
  setupAt(u, ext, SEG, CNT, 1, g == MOTION ? 1 : MODS);
  if (ext == SMALL && g != MOTION && u.s.n.size() > 1 && u.s.n[0] + u.s.n[1] > 2) return;
  Problem p{u.b, u.s, u.r.m.size()};
  if (p.mapped) {
    auto cls = classes(p);
    p.symbols();
    auto t = p.values();
    assume(motion(t, u.s, t.dt));
    assume(dynamics(t, u.s, u.r));
    assume(limits(t, u.s, u.r));
    assume(steps(t.dt));
    for (double h : t.dt) sym_pool(travel(h, u.r, sym_is_symbolic() ? 0.0 : 2e-7));
    unitHeadings(t);
    const char* label = g == MOTION ? "no_motion_excluded" : g == DYN ? "no_dynamics_excluded" : "no_trajectory_within_limits_excluded";
    for (auto& e : p.st->eqs) if (group(e, true, p, cls) & g) check_near(e.Value(), 0.0, label);
    for (auto& e : p.st->ineqs) if (group(e, false, p, cls) & g) check_ge(e.Value(), 0.0, label);
  }
  sym_reach("end");
}
SYM_CASE(c15_sound) { sound(MOTION, 0); }
SYM_CASE(c15_unit) { sound(MOTION, 1); }
SYM_CASE(c15_unit_nofix) { sound(MOTION, 2); }
SYM_CASE(c15_complete) { complete(MOTION); }
SYM_CASE(c16_sound) { sound(DYN, 0); }
SYM_CASE(c16_complete) { complete(DYN); }
SYM_CASE(c17_sound) { sound(LIMIT, 0); }
SYM_CASE(c17_complete) { complete(LIMIT); }
SYM_CASE(c15_long) { sound(MOTION, 0, LONG); }
SYM_CASE(c15_long_complete) { complete(MOTION, LONG); }
SYM_CASE(c16_many) { sound(DYN, 0, MANY); }
SYM_CASE(c16_many_complete) { complete(DYN, MANY); }
SYM_CASE(c16_long) { sound(DYN, 0, LONG); }
SYM_CASE(c17_many) { sound(LIMIT, 0, MANY); }
SYM_CASE(c17_many_complete) { complete(LIMIT, MANY); }
SYM_CASE(c16_long_complete) { complete(DYN, LONG); }
SYM_CASE(c17_long_complete) { complete(LIMIT, LONG); }
SYM_CASE(c17_long) { sound(LIMIT, 0, LONG); }

// ------------------------------------------------------------------ C18
static void objective(const PState& st, const View<double>& t, const Shape& s) {
  sym_check(st.objective.has_value(), "total_time_is_minimized");
  if (!st.objective.has_value()) return;
  double T = 0;
  for (size_t i = 0; i + 1 < s.total(); i++) T += t.dt[i];
  check_near(st.maximize ? -st.objective->Value() : st.objective->Value(), T, "total_time_is_minimized");
}
SYM_CASE(c18_objective) {
  Setup u;
  setup(u, 3, THOROUGH ? 4 : 3, 1, 1);
  Problem p{u.b, u.s, 1};
  sym_check(p.mapped, "solution_holds_every_sample");
  if (p.mapped) {
    p.symbols();
    auto t = p.values();
    objective(*p.st, t, u.s);
    p.pool();
    for (double h : t.dt) check_ge(h, 0.0, "time_step_nonnegative");
  }
  sym_reach("end");
}
// longer paths: default counts, and hundreds of intervals
SYM_CASE(c18_objective_large) {
  Shape s;
  size_t k = sym_choice("shape", 0, 2);
  if (k == 0) s.n = {40};
  else if (k == 1) s.n = {40, 40};
  else s.n = {7, 150};
  SwervePathBuilder b;
  b.SetDrivetrain(drivetrain(robot(1)));
  for (size_t w = 0; w <= s.n.size(); w++) b.WptInitialGuessPoint(w, Pose2d{1.0 + w, 2.0 - w, {0.25}});
  if (k == 2) b.ControlIntervalCounts({7, 150});
  Problem p{b, s, 1};
  sym_check(p.mapped, "solution_holds_every_sample");
  if (p.mapped) {
    p.symbols();
    auto t = p.values();
    objective(*p.st, t, s);
  }
  sym_reach("end");
}
SYM_CASE(c15_full) { sound(MOTION, 0, FULL); }
SYM_CASE(c15_full_complete) { complete(MOTION, FULL); }
SYM_CASE(c16_full) { sound(DYN, 0, FULL); }
SYM_CASE(c16_full_complete) { complete(DYN, FULL); }
SYM_CASE(c17_full) { sound(LIMIT, 0, FULL); }
SYM_CASE(c17_full_complete) { complete(LIMIT, FULL); }
// any number of modules; one interval per segment
static void stepLimit(bool sound, Extent ext = SMALL) {
  Setup u;
  if (ext == SMALL) {
    u.s = shape(1, 2, 1);
    size_t m = sym_choice("modules", 1, u.s.n.size() > 1 ? 2 : WMODS + 1);
    u.r = m > WMODS ? rectangle() : robot(m);
    if (u.s.n.size() > 1) warm(u.s, m);
    u.b.SetDrivetrain(drivetrain(u.r));
    waypoints(u.b, u.s);
  } else {
    setupAt(u, ext, 1, 1, 1, 1);
  }
  Problem p{u.b, u.s, u.r.m.size()};
  if (p.mapped) {
    auto cls = classes(p);
    p.symbols();
    auto t = p.values();
    if (sound) {
      p.pool();
      // for the solvers: steps are monotonic in the speed (valid for every dt, a, b)
      for (double h : t.dt)
        for (size_t i = 0; i < u.r.m.size(); i++)
          for (size_t j = 0; j < u.r.m.size(); j++)
            if (i != j) {
              double a = u.r.m[i].r * u.r.m[i].w, b = u.r.m[j].r * u.r.m[j].w;
              sym_pool(sym_any(h < 0.0, a > b, h * a <= h * b));
            }
      for (double h : t.dt) sym_check(travel(h, u.r, sym_margin()), "wheel_travel_per_step_within_spacing");
    } else {
      assume(motion(t, u.s, t.dt));
      assume(dynamics(t, u.s, u.r));
      assume(limits(t, u.s, u.r));
      assume(steps(t.dt));
      for (double h : t.dt) sym_pool(travel(h, u.r, sym_is_symbolic() ? 0.0 : 2e-7));
      unitHeadings(t);
      for (auto& e : p.st->eqs) if (group(e, true, p, cls) & STEP) check_near(e.Value(), 0.0, "no_time_step_excluded");
      for (auto& e : p.st->ineqs) if (group(e, false, p, cls) & STEP) check_ge(e.Value(), 0.0, "no_time_step_excluded");
    }
  }
  sym_reach("end");
}
SYM_CASE(c18_travel_sound) { stepLimit(true); }
SYM_CASE(c18_travel_complete) { stepLimit(false); }
SYM_CASE(c18_travel_many) { stepLimit(true, MANY); }
SYM_CASE(c18_travel_many_complete) { stepLimit(false, MANY); }
