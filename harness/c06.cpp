// C06: rotations and poses.
#include "common.hpp"
#include <trajopt/geometry/Pose2.hpp>
using namespace trajopt;
template <class T> T mk(double v) {
  if constexpr (std::is_same_v<T, double>) return v; else return leaf(v);
}
struct R { double c, s; };
static R unit(const char* c, const char* s) {
  R r{sym_real(c, 1), sym_real(s, 1)};
  sym_assume(is_zero(r.c * r.c + r.s * r.s - 1.0));
  return r;
}
template <class T> Rotation2<T> rot(R r) { return Rotation2<T>{mk<T>(r.c), mk<T>(r.s)}; }
template <class RR> void want(const RR& r, double c, double s, const char* l) {
  check_near(val(r.Cos()), c, l);
  check_near(val(r.Sin()), s, l);
}
template <class T> void group() {
  R a = unit("ac", "as"), b = unit("bc", "bs");
  auto A = rot<T>(a), B = rot<T>(b);
  want(Rotation2<T>{}, 1, 0, "default_is_identity");
  double sc = a.c * b.c - a.s * b.s, ss = a.s * b.c + a.c * b.s;
  want(A + B, sc, ss, "sum_of_angles");
  want(A.RotateBy(B), sc, ss, "rotate_by_adds_angles");
  want(-A, a.c, -a.s, "negation_inverts");
  want(A - B, a.c * b.c + a.s * b.s, a.s * b.c - a.c * b.s, "difference_of_angles");
  want(A - A, 1, 0, "self_difference_is_identity");
  auto S = A + B;
  check_near(sqr(val(S.Cos())) + sqr(val(S.Sin())), 1, "stays_on_unit_circle");
  want(A, a.c, a.s, "operand_unchanged");
  want(B, b.c, b.s, "operand_unchanged");
  sym_reach("end");
}
template <class T> void assoc() {
  R a{sym_real("ac", 1), sym_real("as", 1)}, b{sym_real("bc", 1), sym_real("bs", 1)}, c{sym_real("cc", 1), sym_real("cs", 1)};
  auto A = rot<T>(a), B = rot<T>(b), C = rot<T>(c);
  auto L = (A + B) + C, Q = A + (B + C);
  want(L, val(Q.Cos()), val(Q.Sin()), "associative");
  sym_reach("end");
}
SYM_CASE(c06_group_d) { group<double>(); }
SYM_CASE(c06_group_v) { group<Variable>(); }
SYM_CASE(c06_assoc_d) { assoc<double>(); }
SYM_CASE(c06_assoc_v) { assoc<Variable>(); }
// double composed with a variable rotation
SYM_CASE(c06_mixed) {
  R a = unit("ac", "as"), b = unit("bc", "bs");
  auto r = rot<double>(a).RotateBy(rot<Variable>(b));
  want(r, a.c * b.c - a.s * b.s, a.s * b.c + a.c * b.s, "mixed_sum_of_angles");
  sym_reach("end");
}
// construction from an angle and reading it back
SYM_CASE(c06_angle) {
  double th = sym_real("theta", 10);
  Rotation2d r{th};
  check_near(r.Cos(), std::cos(th), "cos_of_angle");
  check_near(r.Sin(), std::sin(th), "sin_of_angle");
  double d = r.Radians();
  sym_check(sym_and(d <= PI + 1e-9, d >= -PI - 1e-9), "radians_range");
  check_near(std::cos(d), std::cos(th), "radians_reads_back");
  check_near(std::sin(d), std::sin(th), "radians_reads_back");
  check_near(r.Degrees(), d / PI * 180.0, "degrees_match_radians");
  Rotation2v v{leaf(th)};
  check_near(val(v.Cos()), std::cos(th), "cos_of_angle");
  check_near(val(v.Sin()), std::sin(th), "sin_of_angle");
  check_near(val(v.Radians()), d, "variable_radians");
  check_near(val(v.Degrees()), d / PI * 180.0, "variable_degrees");
  sym_reach("end");
}
// for angles within half a turn the very angle comes back
SYM_CASE(c06_angle_exact) {
  double th = sym_real("theta", 3);
  sym_assume(sym_and(th > -PI + 1e-6, th < PI - 1e-6));
  check_near(Rotation2d{th}.Radians(), th, "radians_round_trip");
  check_near(Rotation2d{th}.Degrees(), th / PI * 180, "degrees_round_trip");
  sym_reach("end");
}
template <class T> void pose() {
  double x = sym_real("x"), y = sym_real("y");
  R a = unit("ac", "as"), b = unit("bc", "bs");
  Pose2<T> p{mk<T>(x), mk<T>(y), rot<T>(a)};
  check_near(val(p.X()), x, "pose_x");
  check_near(val(p.Y()), y, "pose_y");
  check_near(val(p.Translation().X()), x, "pose_translation");
  check_near(val(p.Translation().Y()), y, "pose_translation");
  want(p.Rotation(), a.c, a.s, "pose_rotation");
  Pose2<T> q{Translation2<T>{mk<T>(x), mk<T>(y)}, rot<T>(a)};
  check_near(val(q.X()), x, "pose_x");
  check_near(val(q.Y()), y, "pose_y");
  want(q.Rotation(), a.c, a.s, "pose_rotation");
  auto r = p.RotateBy(rot<T>(b));
  check_near(val(r.X()), x * b.c - y * b.s, "pose_rotates_position");
  check_near(val(r.Y()), x * b.s + y * b.c, "pose_rotates_position");
  want(r.Rotation(), a.c * b.c - a.s * b.s, a.s * b.c + a.c * b.s, "pose_rotates_heading");
  Pose2<T> z;
  check_near(val(z.X()), 0, "default_pose");
  check_near(val(z.Y()), 0, "default_pose");
  want(z.Rotation(), 1, 0, "default_pose");
  sym_reach("end");
}
SYM_CASE(c06_pose_d) { pose<double>(); }
SYM_CASE(c06_pose_v) { pose<Variable>(); }
SYM_CASE(c06_pose_heading) {
  double x = sym_real("x"), y = sym_real("y"), th = sym_angle("theta");
  Pose2d p{x, y, {th}};
  check_near(p.X(), x, "pose_x");
  check_near(p.Y(), y, "pose_y");
  want(p.Rotation(), std::cos(th), std::sin(th), "pose_heading");
  sym_reach("end");
}
SYM_CASE(c06_convert) {
  double x = sym_real("x"), y = sym_real("y");
  R a{sym_real("ac", 1), sym_real("as", 1)};
  Rotation2v r{rot<double>(a)};
  want(r, a.c, a.s, "rotation_conversion");
  Pose2v v{Pose2d{x, y, rot<double>(a)}};
  check_near(val(v.X()), x, "pose_conversion");
  check_near(val(v.Y()), y, "pose_conversion");
  want(v.Rotation(), a.c, a.s, "pose_conversion");
  sym_reach("end");
}
