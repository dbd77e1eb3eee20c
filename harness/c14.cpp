// C14: requested constraints are enforced at exactly their samples.
#include "gen.hpp"
#if THOROUGH
constexpr int SEG = 3, CNT = 2;
#else
constexpr int SEG = 2, CNT = 2;
#endif
static Constraint make(size_t kind) {
  double a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"), e = sym_real("e"), f = sym_real("f"), g = sym_real("g");
  Translation2d p{a, b}, q{c, d}, r{e, f};
  switch (kind) {
    case 0: return TranslationEqualityConstraint{a, b};
    case 1: { double h = sym_angle("heading"); return PoseEqualityConstraint{a, b, h}; }
    case 2: sym_assume(g > 0.0); return LinearVelocityMaxMagnitudeConstraint{g};
    case 3: sym_assume(g > 0.0); return AngularVelocityMaxMagnitudeConstraint{g};
    case 4: sym_assume(g > 0.0); return LinearAccelerationMaxMagnitudeConstraint{g};
    case 5: { double h = sym_angle("heading"); return LinearVelocityDirectionConstraint{h}; }
    case 6: { double h = sym_angle("heading"); return PointAtConstraint{p, h}; }
    case 7: sym_assume(g > 0.0); return PointPointConstraint{p, q, g};
    case 8: sym_assume(g > 0.0); return LinePointConstraint{p, q, r, g};
    default: sym_assume(g > 0.0); return PointLineConstraint{p, q, r, g};
  }
}
// one requested constraint, and the samples it is about
struct Req { Constraint k; std::vector<size_t> at; };
static void check(SwervePathBuilder& plain, SwervePathBuilder& b, const Shape& s, const std::vector<Req>& req) {
  Problem base{plain, s, 1}, p{b, s, 1};
  if (!base.mapped || !p.mapped) { sym_reach("end"); return; }
  base.symbols();
  auto t = base.values();
  p.assign(t);
  std::vector<Posted> want;
  for (auto& r : req)
    for (size_t i : r.at) { St q = stateAt(t, i); want.push_back(posted(r.k, q)); }
  auto be = base.eqs(), bi = base.ineqs(), pe = p.eqs(), pi = p.ineqs();
  // whatever the problem posts ...
  for (double e : pe) sym_pool(is_zero(e));
  for (double e : pi) sym_pool(is_nonneg(e));
  // ... implies every requested constraint at each of its samples,
  for (auto& w : want) {
    for (double e : w.eq) sym_check(has(pe, e) || near(e, 0.0), "requested_constraint_enforced");
    for (double e : w.ge) sym_check(has(pi, e) || e >= -sym_margin(), "requested_constraint_enforced");
  }
  sym_pool_clear();
  // and nothing else is posted beyond the path without constraints.
  std::vector<double> we, wi;
  for (auto& w : want) { we.insert(we.end(), w.eq.begin(), w.eq.end()); wi.insert(wi.end(), w.ge.begin(), w.ge.end()); }
  for (double e : be) sym_pool(is_zero(e));
  for (double e : bi) sym_pool(is_nonneg(e));
  for (double e : we) sym_pool(is_zero(e));
  for (double e : wi) sym_pool(is_nonneg(e));
  for (double e : pe) sym_check(has(be, e) || has(we, e) || near(e, 0.0), "nothing_restricted_elsewhere");
  for (double e : pi) sym_check(has(bi, e) || has(wi, e) || e >= -sym_margin(), "nothing_restricted_elsewhere");
  sym_pool_clear();
  sym_reach("end");
}
static size_t sampleOf(const Shape& s, size_t wpt) {
  size_t at = 0;
  for (size_t i = 0; i < wpt; i++) at += s.n[i];
  return at;
}
static Req waypointReq(SwervePathBuilder& b, const Shape& s, size_t w, const Constraint& k) {
  b.WptConstraint(w, k);
  return {k, {sampleOf(s, w)}};
}
static Req segmentReq(SwervePathBuilder& b, const Shape& s, size_t i, size_t j, const Constraint& k) {
  b.SgmtConstraint(i, j, k);
  Req r{k, {}};
  for (size_t q = sampleOf(s, i); q <= sampleOf(s, j); q++) r.at.push_back(q);
  return r;
}
static void prepare(SwervePathBuilder& a, SwervePathBuilder& b, Shape& s, size_t seg, size_t cnt) {
  s = shape(1, seg, cnt);
  if (s.n.size() == 2) warm(s, 1);
  Robot r = robot(1);
  for (auto* q : {&a, &b}) { q->SetDrivetrain(drivetrain(r)); waypoints(*q, s); }
}
// every kind of constraint
SYM_CASE(c14_kinds) {
  SwervePathBuilder a, b;
  Shape s;
  for (size_t q = sym_choice("segments", 1, 2); q-- > 0;) s.n.push_back(sym_choice("longer", 0, 1) ? 3 : 1);
  Robot rb = robot(1);
  for (auto* z : {&a, &b}) { z->SetDrivetrain(drivetrain(rb)); waypoints(*z, s); }
  Constraint k = make(sym_choice("kind", 0, 9));
  size_t n = s.n.size();
  std::vector<Req> r;
  if (sym_choice("segment", 0, 1)) r.push_back(segmentReq(b, s, 0, sym_choice("to", 1, n), k));
  else r.push_back(waypointReq(b, s, sym_choice("at", 0, n), k));
  check(a, b, s, r);
}
// every waypoint and every range, two requests at a time
SYM_CASE(c14_places) {
  SwervePathBuilder a, b;
  Shape s;
  prepare(a, b, s, SEG, CNT);
  size_t n = s.n.size();
  std::vector<Req> r;
  double g = sym_real("limit");
  sym_assume(g > 0.0);
  size_t i = sym_choice("from", 0, n), j = sym_choice("to", i, n);
  Constraint k = make(0);
  r.push_back(i == j ? waypointReq(b, s, i, k) : segmentReq(b, s, i, j, k));
  if (sym_choice("second", 0, 1)) {
    size_t u = sym_choice("second_from", 0, n), v = sym_choice("second_to", u, n);
    LinearVelocityMaxMagnitudeConstraint l{g};
    r.push_back(u == v ? waypointReq(b, s, u, l) : segmentReq(b, s, u, v, l));
  }
  check(a, b, s, r);
}
// the builder's own waypoint constraints
SYM_CASE(c14_waypoints) {
  SwervePathBuilder a, b;
  Shape s;
  prepare(a, b, s, SEG, CNT);
  size_t n = s.n.size();
  std::vector<Req> r;
  for (size_t w = 0; w <= n; w++) {
    double x = sym_real("x"), y = sym_real("y");
    if (sym_choice("pose", 0, 1)) {
      double h = sym_angle("heading");
      b.PoseWpt(w, x, y, h);
      r.push_back({PoseEqualityConstraint{x, y, h}, {sampleOf(s, w)}});
    } else {
      b.TranslationWpt(w, x, y);
      r.push_back({TranslationEqualityConstraint{x, y}, {sampleOf(s, w)}});
    }
  }
  check(a, b, s, r);
}
// the default of 40 intervals
SYM_CASE(c14_full) {
  SwervePathBuilder a, b;
  Shape s;
  s.n = {40, 40};
  Robot q = robot(1);
  for (auto* z : {&a, &b}) { z->SetDrivetrain(drivetrain(q)); waypoints(*z, s); }
  size_t i = sym_choice("from", 0, 2), j = sym_choice("to", i, 2);
  Constraint k = make(0);
  std::vector<Req> r;
  r.push_back(i == j ? waypointReq(b, s, i, k) : segmentReq(b, s, i, j, k));
  check(a, b, s, r);
}
// several requests at one place, of every kind that may be repeated
SYM_CASE(c14_many) {
  SwervePathBuilder a, b;
  Shape s;
  s.n = {1, 2, 1};
  Robot q = robot(1);
  for (auto* z : {&a, &b}) { z->SetDrivetrain(drivetrain(q)); waypoints(*z, s); }
  size_t i = sym_choice("from", 0, 3), j = sym_choice("to", i, 3), n = sym_choice("requests", 4, THOROUGH ? 9 : 6), first = sym_choice("first", 0, 2);
  std::vector<Req> r;
  for (size_t k = 0; k < n; k++) {
    Constraint c = make((first * 3 + k) % 10);
    r.push_back(i == j ? waypointReq(b, s, i, c) : segmentReq(b, s, i, j, c));
  }
  check(a, b, s, r);
}
// longer segments
SYM_CASE(c14_long) {
  SwervePathBuilder a, b;
  Shape s;
  s.n = {4, 3, 5};
  Robot q = robot(1);
  for (auto* z : {&a, &b}) { z->SetDrivetrain(drivetrain(q)); waypoints(*z, s); }
  size_t i = sym_choice("from", 0, 3), j = sym_choice("to", i, 3);
  Constraint k = make(sym_choice("kind", 4, 6));
  std::vector<Req> r;
  r.push_back(i == j ? waypointReq(b, s, i, k) : segmentReq(b, s, i, j, k));
  check(a, b, s, r);
}
