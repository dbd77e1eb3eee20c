// C07-C11: each constraint admits exactly the states it should.
#include "constr.hpp"
using sleipnir::OptimizationProblem;

// ---- C07
static void translation(bool complete) {
  St t = state(false);
  double X = sym_real("tx"), Y = sym_real("ty");
  OptimizationProblem p;
  if (complete) { sym_assume(is_zero(t.x - X)); sym_assume(is_zero(t.y - Y)); }
  apply(TranslationEqualityConstraint{X, Y}, p, t);
  if (complete) { check_posted(p, "target_position_admitted"); sym_reach("end"); return; }
  pool_posted(p);
  check_near(t.x, X, "x_pinned");
  check_near(t.y, Y, "y_pinned");
  sym_pool_clear();
  sym_reach("end");
}
SYM_CASE(c07_translation_sound) { translation(false); }
SYM_CASE(c07_translation_complete) { translation(true); }
static void pose(bool complete) {
  St t = state(false);
  double X = sym_real("tx"), Y = sym_real("ty"), h = sym_angle("heading");
  double ch = std::cos(h), sh = std::sin(h);
  OptimizationProblem p;
  if (complete) {
    double sg = sym_choice("opposite", 0, 1) ? -1.0 : 1.0;
    sym_assume(is_zero(t.x - X)); sym_assume(is_zero(t.y - Y));
    sym_assume(is_zero(t.c - sg * ch)); sym_assume(is_zero(t.s - sg * sh));
  }
  apply(PoseEqualityConstraint{X, Y, h}, p, t);
  if (complete) { check_posted(p, "target_pose_admitted"); sym_reach("end"); return; }
  pool_posted(p);
  check_near(t.x, X, "x_pinned");
  check_near(t.y, Y, "y_pinned");
  check_near(t.c * t.c + t.s * t.s, 1, "heading_is_unit_vector");
  check_near(t.c * sh - t.s * ch, 0, "heading_along_request");
  sym_pool_clear();
  sym_reach("end");
}
SYM_CASE(c07_pose_sound) { pose(false); }
SYM_CASE(c07_pose_complete) { pose(true); }
// the geometry operators themselves, in every mixture
template <class T> T mk(double v) {
  if constexpr (std::is_same_v<T, double>) return v; else return leaf(v);
}
template <class A, class B> void teq() {
  double x1 = sym_real("x1"), y1 = sym_real("y1"), x2 = sym_real("x2"), y2 = sym_real("y2");
  Translation2<A> a{mk<A>(x1), mk<A>(y1)};
  Translation2<B> b{mk<B>(x2), mk<B>(y2)};
  OptimizationProblem p;
  bool complete = sym_choice("complete", 0, 1);
  if (complete) { sym_assume(is_zero(x1 - x2)); sym_assume(is_zero(y1 - y2)); }
  p.SubjectTo(a == b);
  if (complete) { check_posted(p, "equal_translations_admitted"); sym_reach("complete"); return; }
  pool_posted(p);
  check_near(x1, x2, "translation_x_equal");
  check_near(y1, y2, "translation_y_equal");
  sym_pool_clear();
  sym_reach("sound");
}
SYM_CASE(c07_teq_vd) { teq<Variable, double>(); }
SYM_CASE(c07_teq_dv) { teq<double, Variable>(); }
SYM_CASE(c07_teq_vv) { teq<Variable, Variable>(); }
template <class A, class B> void req() {
  double c1 = sym_real("c1", 1), s1 = sym_real("s1", 1), c2 = sym_real("c2", 1), s2 = sym_real("s2", 1);
  bool complete = sym_choice("complete", 0, 1);
  // plain-number rotations are unit vectors by construction
  if (std::is_same_v<A, double> || complete) sym_assume(is_zero(c1 * c1 + s1 * s1 - 1.0));
  if (std::is_same_v<B, double> || complete) sym_assume(is_zero(c2 * c2 + s2 * s2 - 1.0));
  if (complete) {
    double sg = sym_choice("opposite", 0, 1) ? -1.0 : 1.0;
    sym_assume(is_zero(c1 - sg * c2)); sym_assume(is_zero(s1 - sg * s2));
  }
  Rotation2<A> a{mk<A>(c1), mk<A>(s1)};
  Rotation2<B> b{mk<B>(c2), mk<B>(s2)};
  OptimizationProblem p;
  p.SubjectTo(a == b);
  if (complete) { check_posted(p, "equal_or_opposite_headings_admitted"); sym_reach("complete"); return; }
  pool_posted(p);
  check_near(c1 * c1 + s1 * s1, 1, "lhs_unit_vector");
  check_near(c2 * c2 + s2 * s2, 1, "rhs_unit_vector");
  check_near(c1 * s2 - s1 * c2, 0, "headings_parallel");
  sym_pool_clear();
  sym_reach("sound");
}
SYM_CASE(c07_req_vd) { req<Variable, double>(); }
SYM_CASE(c07_req_dv) { req<double, Variable>(); }
SYM_CASE(c07_req_vv) { req<Variable, Variable>(); }
template <class A, class B> void peq() {
  double x1 = sym_real("x1"), y1 = sym_real("y1"), x2 = sym_real("x2"), y2 = sym_real("y2");
  double c1 = sym_real("c1", 1), s1 = sym_real("s1", 1), c2 = sym_real("c2", 1), s2 = sym_real("s2", 1);
  if (std::is_same_v<A, double>) sym_assume(is_zero(c1 * c1 + s1 * s1 - 1.0));
  if (std::is_same_v<B, double>) sym_assume(is_zero(c2 * c2 + s2 * s2 - 1.0));
  Pose2<A> a{mk<A>(x1), mk<A>(y1), Rotation2<A>{mk<A>(c1), mk<A>(s1)}};
  Pose2<B> b{mk<B>(x2), mk<B>(y2), Rotation2<B>{mk<B>(c2), mk<B>(s2)}};
  OptimizationProblem p;
  p.SubjectTo(a == b);
  pool_posted(p);
  check_near(x1, x2, "pose_x_equal");
  check_near(y1, y2, "pose_y_equal");
  check_near(c1 * c1 + s1 * s1, 1, "lhs_unit_vector");
  check_near(c2 * c2 + s2 * s2, 1, "rhs_unit_vector");
  check_near(c1 * s2 - s1 * c2, 0, "headings_parallel");
  sym_pool_clear();
  sym_reach("end");
}
SYM_CASE(c07_peq_vd) { peq<Variable, double>(); }
SYM_CASE(c07_peq_vv) { peq<Variable, Variable>(); }

// ---- C08
static void limit(int which, bool complete) {
  St t = state(false);
  double L = sym_real("limit");
  sym_assume(L >= 0.0);
  OptimizationProblem p;
  double m2 = which == 0 ? sqr(t.vx) + sqr(t.vy) : which == 1 ? sqr(t.ax) + sqr(t.ay) : sqr(t.w);
  if (complete) sym_assume(is_nonneg(L * L - m2));
  if (which == 0) apply(LinearVelocityMaxMagnitudeConstraint{L}, p, t);
  if (which == 1) apply(LinearAccelerationMaxMagnitudeConstraint{L}, p, t);
  if (which == 2) apply(AngularVelocityMaxMagnitudeConstraint{L}, p, t);
  if (complete) { check_posted(p, "state_within_limit_admitted"); sym_reach("end"); return; }
  pool_posted(p);
  check_le(m2, L * L, "magnitude_at_most_limit");
  sym_pool_clear();
  sym_reach("end");
}
SYM_CASE(c08_velocity_sound) { limit(0, false); }
SYM_CASE(c08_velocity_complete) { limit(0, true); }
SYM_CASE(c08_acceleration_sound) { limit(1, false); }
SYM_CASE(c08_acceleration_complete) { limit(1, true); }
SYM_CASE(c08_spin_sound) { limit(2, false); }
SYM_CASE(c08_spin_complete) { limit(2, true); }

// ---- C09
static void direction(bool complete) {
  St t = state(false);
  double h = sym_angle("angle");
  double ux = std::cos(h), uy = std::sin(h);
  OptimizationProblem p;
  if (complete) {
    double k = sym_real("speed");
    sym_assume(is_zero(t.vx - k * ux));
    sym_assume(is_zero(t.vy - k * uy));
  }
  apply(LinearVelocityDirectionConstraint{h}, p, t);
  if (complete) { check_posted(p, "collinear_velocity_admitted"); sym_reach("end"); return; }
  pool_posted(p);
  double cr = t.vx * uy - t.vy * ux;
  // squared: the constraint is a difference of squares
  sym_check(sqr(cr) <= sym_margin(), "velocity_collinear_with_direction");
  sym_pool_clear();
  sym_reach("end");
}
SYM_CASE(c09_sound) { direction(false); }
SYM_CASE(c09_complete) { direction(true); }

// ---- C10
static void pointat(bool complete) {
  St t = state(true);
  double px = sym_real("px"), py = sym_real("py"), tol = sym_angle("tolerance");
  double ct = std::cos(tol), st = std::sin(tol);
  sym_assume(sym_and(tol >= 0.0, tol <= PI));
  sym_assume(st >= 0.0);
  double dx = px - t.x, dy = py - t.y;
  double d = std::hypot(dx, dy), dot = t.c * dx + t.s * dy;
  OptimizationProblem p;
  // the heading deviates by at most tol  <=>  cos(deviation) >= cos(tol)
  if (complete) sym_assume(is_nonneg(dot - ct * d));
  apply(PointAtConstraint{Translation2d{px, py}, tol}, p, t);
  if (complete) { check_posted(p, "heading_within_tolerance_admitted"); sym_reach("end"); return; }
  pool_posted(p);
  check_ge(dot, ct * d, "heading_error_at_most_tolerance");
  sym_pool_clear();
  sym_reach("end");
}
SYM_CASE(c10_sound) { pointat(false); }
SYM_CASE(c10_complete) { pointat(true); }

// ---- C11
struct P { double x, y; };
static P pt(const char* a, const char* b) { return {sym_real(a), sym_real(b)}; }
static P moved(const St& t, P q) { return {t.x + q.x * t.c - q.y * t.s, t.y + q.x * t.s + q.y * t.c}; }
static Translation2d T2(P q) { return Translation2d{q.x, q.y}; }
static void pointpoint(bool complete) {
  St t = state(true);
  P r = pt("rx", "ry"), f = pt("fx", "fy");
  double m = sym_real("distance");
  sym_assume(m >= 0.0);
  P w = moved(t, r);
  double d2 = sqr(w.x - f.x) + sqr(w.y - f.y);
  OptimizationProblem p;
  if (complete) sym_assume(is_nonneg(d2 - m * m));
  apply(PointPointConstraint{T2(r), T2(f), m}, p, t);
  if (complete) { check_posted(p, "distant_point_admitted"); sym_reach("end"); return; }
  pool_posted(p);
  check_ge(d2, m * m, "point_kept_at_distance");
  sym_pool_clear();
  sym_reach("end");
}
SYM_CASE(c11_pointpoint_sound) { pointpoint(false); }
SYM_CASE(c11_pointpoint_complete) { pointpoint(true); }
// Point and segment are given relative to each other: the point lies at the
// start of the segment plus t times the segment plus n times its normal, which
// covers every position and makes the squared distance (n^2 + e^2) |l|^2 with
// e the part of t outside [0, 1].
struct Rel { double lx, ly, t, n, e, L2; };
static Rel rel() {
  Rel r{sym_real("lx"), sym_real("ly"), sym_real("t", 3), sym_real("n", 3), 0, 0};
  r.L2 = sqr(r.lx) + sqr(r.ly);
  sym_assume(r.L2 >= 1e-3);
  int region = sym_choice("region", 0, 2);
  if (region == 0) { sym_assume(r.t <= 0.0); r.e = r.t; }
  if (region == 1) { sym_assume(r.t >= 1.0); r.e = r.t - 1.0; }
  if (region == 2) { sym_assume(sym_and(r.t >= 0.0, r.t <= 1.0)); }
  return r;
}
static void judge(OptimizationProblem& p, const Rel& r, double m, bool complete) {
  if (complete) { check_posted(p, "distant_segment_admitted"); sym_reach("end"); return; }
  pool_posted(p);
  check_ge((sqr(r.n) + sqr(r.e)) * r.L2, m * m, "segment_kept_at_distance");
  sym_pool_clear();
  sym_reach("end");
}
static void rot(const St& t, double x, double y, double& ox, double& oy) { ox = x * t.c - y * t.s; oy = x * t.s + y * t.c; }
static void linepoint(bool complete) {
  St t = state(true);
  P a = pt("ax_", "ay_");
  Rel r = rel();
  double m = sym_real("distance");
  sym_assume(m >= 0.0);
  P b{a.x + r.lx, a.y + r.ly};
  double ux, uy;
  rot(t, a.x + r.t * r.lx - r.n * r.ly, a.y + r.t * r.ly + r.n * r.lx, ux, uy);
  P q{t.x + ux, t.y + uy};
  OptimizationProblem p;
  if (complete) sym_assume(is_nonneg((sqr(r.n) + sqr(r.e)) * r.L2 - m * m));
  apply(LinePointConstraint{T2(a), T2(b), T2(q), m}, p, t);
  judge(p, r, m, complete);
}
SYM_CASE(c11_linepoint_sound) { linepoint(false); }
SYM_CASE(c11_linepoint_complete) { linepoint(true); }
static void pointline(bool complete) {
  St t = state(true);
  P q = pt("qx", "qy");
  Rel r = rel();
  double m = sym_real("distance");
  sym_assume(m >= 0.0);
  P w = moved(t, q);
  P a{w.x - r.t * r.lx + r.n * r.ly, w.y - r.t * r.ly - r.n * r.lx};
  P b{a.x + r.lx, a.y + r.ly};
  OptimizationProblem p;
  if (complete) sym_assume(is_nonneg((sqr(r.n) + sqr(r.e)) * r.L2 - m * m));
  apply(PointLineConstraint{T2(q), T2(a), T2(b), m}, p, t);
  judge(p, r, m, complete);
}
SYM_CASE(c11_pointline_sound) { pointline(false); }
SYM_CASE(c11_pointline_complete) { pointline(true); }
