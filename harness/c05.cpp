// C05: translations.
#include "common.hpp"
#include <trajopt/geometry/Translation2.hpp>
using namespace trajopt;
struct In { double x1, y1, x2, y2, c, s, k; };
static In in() {
  In i{sym_real("x1"), sym_real("y1"), sym_real("x2"), sym_real("y2"), 0, 0, sym_real("k")};
  i.c = sym_real("c", 1);
  i.s = sym_real("s", 1);
  return i;
}
static double mkD(double v) { return v; }
static Variable mkV(double v) { return leaf(v); }
template <class T> T mk(double v) {
  if constexpr (std::is_same_v<T, double>) return v; else return mkV(v);
}
template <class T> Translation2<T> tr(double x, double y) { return Translation2<T>{mk<T>(x), mk<T>(y)}; }
template <class TT> void want(const TT& t, double x, double y, const char* l) {
  check_near(val(t.X()), x, l);
  check_near(val(t.Y()), y, l);
}
template <class T, class U> void binary() {
  In i = in();
  auto a = tr<T>(i.x1, i.y1);
  auto b = tr<U>(i.x2, i.y2);
  want(a + b, i.x1 + i.x2, i.y1 + i.y2, "sum");
  want(a - b, i.x1 - i.x2, i.y1 - i.y2, "difference");
  want(-a, -i.x1, -i.y1, "negation");
  want(a * mk<U>(i.k), i.x1 * i.k, i.y1 * i.k, "scaling");
  check_near(val(a.Dot(b)), i.x1 * i.x2 + i.y1 * i.y2, "dot");
  check_near(val(a.Cross(b)), i.x1 * i.y2 - i.y1 * i.x2, "cross");
  check_near(val(a.SquaredNorm()), i.x1 * i.x1 + i.y1 * i.y1, "squared_norm");
  // operands unchanged
  want(a, i.x1, i.y1, "operand_unchanged");
  want(b, i.x2, i.y2, "operand_unchanged");
  sym_reach("end");
}
template <class T, class U> void roots() {
  In i = in();
  auto a = tr<T>(i.x1, i.y1);
  auto b = tr<U>(i.x2, i.y2);
  double n = val(a.Norm());
  sym_check(n >= -sym_margin(), "norm_nonnegative");
  check_near(n * n, sqr(i.x1) + sqr(i.y1), "norm");
  double d = val(a.Distance(b));
  sym_check(d >= -sym_margin(), "distance_nonnegative");
  check_near(d * d, sqr(i.x1 - i.x2) + sqr(i.y1 - i.y2), "distance");
  sym_reach("end");
}
template <class T, class U> void divide() {
  In i = in();
  sym_assume(sym_or(i.k > 1e-3, i.k < -1e-3));
  auto q = tr<T>(i.x1, i.y1) / mk<U>(i.k);
  check_near(val(q.X()) * i.k, i.x1, "division");
  check_near(val(q.Y()) * i.k, i.y1, "division");
  sym_reach("end");
}
template <class T, class U> void rotate() {
  In i = in();
  sym_assume(is_zero(i.c * i.c + i.s * i.s - 1.0));
  auto a = tr<T>(i.x1, i.y1);
  auto b = tr<T>(i.x2, i.y2);
  Rotation2<U> r{mk<U>(i.c), mk<U>(i.s)};
  auto p = a.RotateBy(r), q = b.RotateBy(r);
  double px = val(p.X()), py = val(p.Y()), qx = val(q.X()), qy = val(q.Y());
  check_near(px * px + py * py, sqr(i.x1) + sqr(i.y1), "rotation_keeps_length");
  check_near(px * qx + py * qy, i.x1 * i.x2 + i.y1 * i.y2, "rotation_keeps_dot_product");
  // counter-clockwise: angle between a and its image is the rotation
  double n2 = sqr(i.x1) + sqr(i.y1);
  check_near(i.x1 * px + i.y1 * py, n2 * i.c, "rotation_adds_angle");
  check_near(i.x1 * py - i.y1 * px, n2 * i.s, "rotation_is_counter_clockwise");
  sym_reach("end");
}
template <class T, class U> void build() {
  In i = in();
  // default, polar construction, angle, structured bindings
  Translation2<T> z;
  want(z, 0, 0, "default_is_origin");
  Translation2<T> p{mk<T>(i.k), Rotation2<U>{mk<U>(i.c), mk<U>(i.s)}};
  want(p, i.k * i.c, i.k * i.s, "polar");
  auto a = tr<T>(i.x1, i.y1);
  auto ang = a.Angle();
  double n2 = sqr(i.x1) + sqr(i.y1);
  double cr = i.x1 * val(ang.Sin()) - i.y1 * val(ang.Cos());
  double dt = i.x1 * val(ang.Cos()) + i.y1 * val(ang.Sin());
  check_near(cr, 0, "angle_direction");
  sym_check(sym_implies(n2 > 1e-2, dt > 0), "angle_sense");
  const auto& [bx, by] = a;
  check_near(val(bx), i.x1, "structured_binding");
  check_near(val(by), i.y1, "structured_binding");
  check_near(val(get<0>(a)), i.x1, "structured_binding");
  check_near(val(get<1>(a)), i.y1, "structured_binding");
  sym_reach("end");
}
SYM_CASE(c05_polar_angle) {
  double k = sym_real("k"), th = sym_angle("theta");
  Translation2d p{k, Rotation2d{th}};
  want(p, k * std::cos(th), k * std::sin(th), "polar_of_angle");
  Translation2v q{leaf(k), Rotation2d{th}};
  want(q, k * std::cos(th), k * std::sin(th), "polar_of_angle");
  sym_reach("end");
}
SYM_CASE(c05_convert) {
  In i = in();
  Translation2v v{tr<double>(i.x1, i.y1)};
  want(v, i.x1, i.y1, "conversion");
  sym_reach("end");
}
#define ALL(f) \
  SYM_CASE(c05_##f##_dd) { f<double, double>(); } SYM_CASE(c05_##f##_dv) { f<double, Variable>(); } \
  SYM_CASE(c05_##f##_vd) { f<Variable, double>(); } SYM_CASE(c05_##f##_vv) { f<Variable, Variable>(); }
ALL(binary) ALL(roots) ALL(divide) ALL(rotate)
SYM_CASE(c05_build_dd) { build<double, double>(); }
SYM_CASE(c05_build_vv) { build<Variable, Variable>(); }
SYM_CASE(c05_build_vd) { build<Variable, double>(); }
