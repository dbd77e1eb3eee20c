// C12: obstacles; C13: the path builder.
#include "constr.hpp"
#include <trajopt/path/SwervePathBuilder.hpp>
using sleipnir::OptimizationProblem;
#if THOROUGH
constexpr int CORN = 5, CORN2 = 3, WPTS = 4;
#else
constexpr int CORN = 4, CORN2 = 2, WPTS = 3;
#endif
// what a constraint posts for state t
struct Posted { std::vector<double> eq, ge; };
static Posted posted(Constraint k, St& t) {
  OptimizationProblem p;
  std::visit([&](auto&& c) { c.Apply(p, t.pose, t.v, t.om, t.a, t.alv); }, k);
  Posted r;
  for (auto& e : p.m_s->eqs) r.eq.push_back(e.Value());
  for (auto& e : p.m_s->ineqs) r.ge.push_back(e.Value());
  return r;
}
static void assumeP(const Posted& p) {
  for (double e : p.eq) sym_pool(is_zero(e));
  for (double e : p.ge) sym_pool(is_nonneg(e));
}
static bool holds(const Posted& p) {
  bool ok = true;
  for (double e : p.eq) ok = sym_and(ok, near(e, 0));
  for (double e : p.ge) ok = sym_and(ok, e >= -sym_margin());
  return ok;
}
using Pts = std::vector<Translation2d>;
static Pts points(const char* a, const char* b, size_t n) {
  Pts r;
  r.reserve(n);
  for (size_t i = 0; i < n; i++) { double x = sym_real(a), y = sym_real(b); r.emplace_back(x, y); }
  return r;
}
struct Ref { Posted p, alt; bool required; };
// The distances an obstacle demands, each through the constraint classes whose
// meaning C11 decides (either orientation of an edge is the same distance).
static void demand(std::vector<Ref>& out, St& t, const Pts& b, const Pts& o, double D) {
  auto edges = [](const Pts& p) {
    std::vector<std::pair<size_t, size_t>> e;
    for (size_t i = 0; i + 1 < p.size(); i++) e.push_back({i, i + 1});
    if (p.size() >= 3) e.push_back({p.size() - 1, 0});
    return e;
  };
  for (auto [i, j] : edges(b))
    for (auto& q : o) out.push_back({posted(LinePointConstraint{b[i], b[j], q, D}, t), posted(LinePointConstraint{b[j], b[i], q, D}, t), true});
  for (auto [i, j] : edges(o))
    for (auto& q : b) out.push_back({posted(PointLineConstraint{q, o[i], o[j], D}, t), posted(PointLineConstraint{q, o[j], o[i], D}, t), true});
  for (auto& q : b)
    for (auto& r : o) {
      auto p = posted(PointPointConstraint{q, r, D}, t);
      out.push_back({p, p, b.size() == 1 && o.size() == 1});
    }
}
static void judge(const std::vector<Constraint>& list, const std::vector<Ref>& refs, St& t) {
  std::vector<Posted> got;
  for (auto& k : list) got.push_back(posted(k, t));
  // a list with the very terms of one already judged needs no second look
  static std::vector<std::vector<Posted>> judged;
  for (auto& old : judged) {
    bool same = old.size() == got.size();
    for (size_t i = 0; same && i < got.size(); i++) {
      same = old[i].eq.size() == got[i].eq.size() && old[i].ge.size() == got[i].ge.size();
      for (size_t k = 0; same && k < got[i].eq.size(); k++) same = sym_identical_f64(old[i].eq[k], got[i].eq[k]);
      for (size_t k = 0; same && k < got[i].ge.size(); k++) same = sym_identical_f64(old[i].ge[k], got[i].ge[k]);
    }
    if (same) return;
  }
  judged.push_back(got);
  for (auto& g : got) assumeP(g);
  for (auto& r : refs)
    if (r.required) sym_check(sym_or(holds(r.p), holds(r.alt)), "every_corner_kept_from_every_edge");
  sym_pool_clear();
  for (auto& r : refs) { assumeP(r.p); assumeP(r.alt); }
  for (auto& g : got) sym_check(holds(g), "nothing_beyond_the_distances");
  sym_pool_clear();
}
static void obstacle(bool segment, bool two, bool many = false) {
  St t = state(true);
  SwervePathBuilder b;
  size_t nb, no;
  if (many) {
    static const size_t S[][2] = {{4, 6}, {6, 4}, {1, 8}, {8, 1}, {5, 5}};
    size_t k = sym_choice("corners", 0, 4);
    nb = S[k][0];
    no = S[k][1];
  } else {
    nb = sym_choice("bumper_corners", 1, CORN);
    no = sym_choice("obstacle_corners", 1, CORN);
  }
  size_t n2 = two ? sym_choice("second_bumper_corners", 1, CORN2) : 0;
  if (two && (nb > CORN2 || no > CORN2)) return;
  double sb = sym_real("bumper_distance"), so = sym_real("obstacle_distance"), s2 = sym_real("second_distance");
  sym_assume(sym_all(sb >= 0.0, so >= 0.0, s2 >= 0.0));
  Pts pb = points("bx", "by", nb), po = points("ox", "oy", no), p2 = points("cx", "cy", n2);
  size_t total = many ? 2 : WPTS;
  if (nb != no)  // earlier paths do not matter
    for (auto [p, q] : {std::pair{3, 2}, std::pair{(int)nb, (int)no}}) {
      Pts ob, oo;
      for (int i = 0; i < p; i++) ob.emplace_back(0.5 * i, 0.75 - i * i);
      for (int i = 0; i < q; i++) oo.emplace_back(5.0 - i, 2.0 + i * i);
      SwervePathBuilder o;
      o.WptInitialGuessPoint(total - 1, Pose2d{0, 0, {0}});
      o.AddBumpers(Bumpers{0.125, ob});
      o.WptObstacle(0, Obstacle{0.25, oo});
      o.SgmtObstacle(0, 1, Obstacle{0.25, oo});
    }
  b.WptInitialGuessPoint(total - 1, Pose2d{0, 0, {0}});
  b.AddBumpers(Bumpers{sb, pb});
  if (two) b.AddBumpers(Bumpers{s2, p2});
  std::vector<Ref> refs;
  demand(refs, t, pb, po, sb + so);
  if (two) demand(refs, t, p2, po, s2 + so);
  size_t from, to;
  if (segment) {
    from = sym_choice("from", 0, total - 2);
    to = sym_choice("to", 1, total - 1);
    if (from >= to) return;
    b.SgmtObstacle(from, to, Obstacle{so, po});
  } else {
    from = to = sym_choice("at", 0, total - 1);
    b.WptObstacle(from, Obstacle{so, po});
  }
  auto& w = b.GetPath().waypoints;
  sym_check(w.size() == total, "waypoint_count");
  for (size_t i = 0; i < w.size(); i++) {
    if (i >= from && i <= to) judge(w[i].waypointConstraints, refs, t);
    else sym_check(w[i].waypointConstraints.empty(), "other_waypoints_untouched");
    if (i > from && i <= to) judge(w[i].segmentConstraints, refs, t);
    else sym_check(w[i].segmentConstraints.empty(), "other_segments_untouched");
  }
  sym_reach("end");
}
SYM_CASE(c12_waypoint) { obstacle(false, false); }
SYM_CASE(c12_segment) { obstacle(true, false); }
SYM_CASE(c12_waypoint_two) { obstacle(false, true); }
SYM_CASE(c12_segment_two) { obstacle(true, true); }
SYM_CASE(c12_waypoint_many) { obstacle(false, false, true); }
SYM_CASE(c12_segment_many) { obstacle(true, false, true); }

// ------------------------------------------------------------------ C13
struct Model {
  size_t wpts = 0;
  bool explicitCounts = false;
  std::vector<size_t> counts;
  struct W { std::vector<Posted> wpt, sgmt; double x = 0, y = 0, h = 0; std::vector<double> ex; };
  std::vector<W> w;
  void grow(size_t n) {
    while (w.size() <= n) {
      if (!w.empty()) counts.push_back(40);
      w.emplace_back();
    }
  }
};
static bool sameP(const Posted& a, const Posted& b) {
  if (a.eq.size() != b.eq.size() || a.ge.size() != b.ge.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.eq.size(); i++) ok = sym_and(ok, near(a.eq[i], b.eq[i]));
  for (size_t i = 0; i < a.ge.size(); i++) ok = sym_and(ok, near(a.ge[i], b.ge[i]));
  return ok;
}
static void compare(const std::vector<Constraint>& got, const std::vector<Posted>& want, St& t, const char* cnt, const char* lab) {
  sym_check(got.size() == want.size(), cnt);
  std::vector<Posted> g;
  for (auto& k : got) g.push_back(posted(k, t));
  for (auto& x : want) {
    bool any = false;
    for (auto& y : g) any = sym_or(any, sameP(x, y));
    sym_check(any, lab);
  }
  for (auto& y : g) {
    bool any = false;
    for (auto& x : want) any = sym_or(any, sameP(x, y));
    sym_check(any, lab);
  }
}
static void step(SwervePathBuilder& b, Model& m, St& t, size_t op, size_t maxIdx) {
  size_t i = sym_choice("index", 0, maxIdx);
  double a = sym_within("a"), c = sym_within("b"), h = 0.5;
  switch (op) {
    case 0:
      h = sym_angle("heading");
      b.PoseWpt(i, a, c, h);
      m.grow(i);
      m.w[i].wpt.push_back(posted(PoseEqualityConstraint{a, c, h}, t));
      m.w[i].x = a; m.w[i].y = c; m.w[i].h = h;
      break;
    case 1:
      h = sym_angle("heading");
      b.TranslationWpt(i, a, c, h);
      m.grow(i);
      m.w[i].wpt.push_back(posted(TranslationEqualityConstraint{a, c}, t));
      m.w[i].x = a; m.w[i].y = c; m.w[i].h = h;
      break;
    case 2:
      h = sym_angle("heading");
      b.WptInitialGuessPoint(i, Pose2d{a, c, {h}});
      m.grow(i);
      m.w[i].x = a; m.w[i].y = c; m.w[i].h = h;
      break;
    case 3: {
      sym_assume(a > 0.0);
      LinearVelocityMaxMagnitudeConstraint k{a};
      b.WptConstraint(i, k);
      m.grow(i);
      m.w[i].wpt.push_back(posted(k, t));
      break;
    }
    case 4: {
      size_t j = sym_choice("to", 1, maxIdx);
      if (j <= i) j = i + 1;
      TranslationEqualityConstraint k{a, c};
      b.SgmtConstraint(i, j, k);
      m.grow(j);
      auto p = posted(k, t);
      for (size_t q = i; q <= j; q++) m.w[q].wpt.push_back(p);
      for (size_t q = i + 1; q <= j; q++) m.w[q].sgmt.push_back(p);
      break;
    }
    case 5: {
      std::vector<Pose2d> e;
      size_t n = sym_choice("points", 0, 2);
      m.grow(i + 1);
      for (size_t k = n; k-- > 0;) { double q = k ? c : a; e.emplace(e.begin(), q, c, Rotation2d{h}); m.w[i + 1].ex.insert(m.w[i + 1].ex.begin(), q); }
      b.SgmtInitialGuessPoints(i, e);
      break;
    }
    case 6: {
      std::vector<size_t> n;
      size_t len = (m.w.empty() ? 0 : m.w.size() - 1) + sym_choice("more", 0, 2);  // one short, exact, one too many
      for (size_t k = 0; k + 1 < len; k++) n.push_back(sym_u64("count"));
      m.counts = n;
      m.explicitCounts = true;
      b.ControlIntervalCounts(std::move(n));
      break;
    }
    case 7: {
      sym_assume(a > 0.0);
      if (i >= m.w.size()) break;
      b.WptObstacle(i, Obstacle{a, {{a, c}}});  // no bumpers: adds nothing
      break;
    }
    default: {
      b.SetDrivetrain(SwerveDrivetrain{a, c, {}});
      sym_check(sym_and(near(b.GetPath().drivetrain.mass, a), near(b.GetPath().drivetrain.moi, c)), "drivetrain_kept");
      b.AddIntermediateCallback([](SwerveSolution&, int64_t) {});
    }
  }
}
static void finish(SwervePathBuilder& b, Model& m, St& t) {
  auto& path = b.GetPath();
  sym_check(path.waypoints.size() == m.w.size(), "highest_index_plus_one_waypoints");
  auto& n = b.GetControlIntervalCounts();
  if (!m.explicitCounts) {
    sym_check(n.size() == (m.w.empty() ? 0 : m.w.size() - 1), "one_count_per_segment");
    for (auto k : n) sym_check(k == 40, "default_count_is_40");
  } else {
    sym_check(n.size() == m.counts.size(), "explicit_counts_kept");
    for (size_t i = 0; i < m.counts.size() && i < n.size(); i++) sym_check(n.at(i) == m.counts[i], "explicit_counts_kept");
  }
  if (path.waypoints.size() != m.w.size()) return;
  for (size_t i = 0; i < m.w.size(); i++) {
    compare(path.waypoints[i].waypointConstraints, m.w[i].wpt, t, "waypoint_record_count", "waypoint_records");
    compare(path.waypoints[i].segmentConstraints, m.w[i].sgmt, t, "segment_record_count", "segment_records");
  }
  if (m.w.empty()) return;
  // guesses, seen through the initial guess with just enough intervals
  std::vector<size_t> c;
  for (size_t i = 1; i < m.w.size(); i++) c.push_back(1 + m.w[i].ex.size());
  auto tight = c;
  b.ControlIntervalCounts(std::move(tight));
  auto g = b.CalculateInitialGuess();
  size_t at = 0, tot = 1;
  for (auto k : c) tot += k;
  sym_check(g.x.size() == tot, "one_guess_list_per_waypoint");
  if (g.x.size() != tot || g.y.size() != tot || g.thetacos.size() != tot || g.thetasin.size() != tot) return;
  for (size_t i = 0; i < m.w.size(); i++) {
    if (i) {
      for (size_t k = 0; k < m.w[i].ex.size(); k++) {  // intermediate guesses survive, in some order
        bool any = false;
        for (size_t q = 0; q < m.w[i].ex.size(); q++) any = sym_or(any, near(g.x[at + 1 + q], m.w[i].ex[k]));
        sym_check(any, "segment_guess_points_kept");
      }
      at += c[i - 1];
    }
    check_near(g.x[at], m.w[i].x, "latest_waypoint_guess_wins");
    check_near(g.y[at], m.w[i].y, "latest_waypoint_guess_wins");
  }
  check_near(g.thetacos[0], std::cos(m.w[0].h), "latest_waypoint_guess_wins");
  check_near(g.thetasin[0], std::sin(m.w[0].h), "latest_waypoint_guess_wins");
}
// sequences whose first operation is given (one case per first operation)
static void sequence(size_t first) {
  St t = state(true);
  SwervePathBuilder b;
  Model m;
  size_t steps = THOROUGH ? 3 : 2;
  SwervePathBuilder other;  // other paths do not matter
  if (first % 2) {
    other.PoseWpt(3, 1.0, 2.0, 0.5);
    other.SgmtConstraint(0, 2, AngularVelocityMaxMagnitudeConstraint{2.0});
    other.SgmtInitialGuessPoints(1, {Pose2d{7.0, 7.0, {0.25}}});
    other.ControlIntervalCounts({3, 4, 5});
    other.CalculateInitialGuess();
  }
  step(b, m, t, first, 2);
  for (size_t k = 1; k < steps; k++) step(b, m, t, sym_choice("op", 0, 8), 2);
  finish(b, m, t);
  sym_reach("end");
}
#define SEQ(n) SYM_CASE(c13_seq##n) { sequence(n); }
SEQ(0) SEQ(1) SEQ(2) SEQ(3) SEQ(4) SEQ(5) SEQ(6) SEQ(7) SEQ(8)
// three steps on few indices
SYM_CASE(c13_three) {
  St t = state(true);
  SwervePathBuilder b;
  Model m;
  for (int k = 0; k < 3; k++) step(b, m, t, sym_choice("op", 0, 5), 1);
  finish(b, m, t);
  sym_reach("end");
}
