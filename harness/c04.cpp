// C04: the linear initial guess.
#include "common.hpp"
#include <trajopt/path/SwervePathBuilder.hpp>
using namespace trajopt;
#if THOROUGH
constexpr int SEG = 2, CNT = 6, EXTRA = 4, HCNT = 6, HEXTRA = 3;
#else
constexpr int SEG = 2, CNT = 4, EXTRA = 3, HCNT = 4, HEXTRA = 2;
#endif
struct G { double x, y, h; };
struct Shape { std::vector<size_t> counts; std::vector<std::vector<G>> pts; };

static Pose2d pose(const G& g) { return Pose2d{g.x, g.y, {g.h}}; }
// Builds the path through the public API; heading angles are arbitrary reals.
static Shape build(SwervePathBuilder& b, size_t maxSeg, size_t maxCnt, size_t maxExtra, bool heading) {
  Shape s;
  size_t n = sym_choice("segments", heading ? maxSeg : 1, maxSeg);
  if (n == 2 || heading) {  // earlier paths do not matter
    for (size_t z : {n + 2, n}) {
      SwervePathBuilder o;
      for (size_t w = 0; w <= z; w++) o.WptInitialGuessPoint(w, Pose2d{5.0 + (double)w, 3.0 - 2.0 * (double)w, {0.5 * (double)w}});
      o.SgmtInitialGuessPoints(0, {Pose2d{6.0, 6.0, {0.75}}});
      o.ControlIntervalCounts(std::vector<size_t>(z, 2));
      o.CalculateInitialGuess();
    }
  }
  for (size_t w = 0; w <= n; w++) {
    auto& v = s.pts.emplace_back();
    size_t extra = w ? sym_choice("extra", 0, maxExtra) : 0;
    for (size_t k = 0; k <= extra; k++) v.push_back({sym_within("x"), sym_within("y"), heading ? sym_within("heading", 9) : 0.25 * (double)(w + 1)});
  }
  for (size_t w = 0; w <= n; w++) {
    b.WptInitialGuessPoint(w, pose(s.pts[w].back()));
    if (s.pts[w].size() > 1) {
      std::vector<Pose2d> e;
      for (size_t k = 0; k + 1 < s.pts[w].size(); k++) e.push_back(pose(s.pts[w][k]));
      b.SgmtInitialGuessPoints(w - 1, e);
    }
  }
  for (size_t i = 0; i < n; i++) s.counts.push_back(sym_choice("count", 1, maxCnt));
  b.ControlIntervalCounts(std::vector<size_t>(s.counts));
  return s;
}
// sample sequence of one segment for one way of splitting its intervals
template <class F> bool split(const std::vector<double>& got, size_t base, const std::vector<double>& knots, const std::vector<size_t>& parts, F&& same) {
  bool ok = true;
  size_t at = base;
  for (size_t k = 0; k < parts.size(); k++)
    for (size_t j = 1; j <= parts[k]; j++) {
      ok = sym_and(ok, same(got[++at], knots[k] + (double)j * ((knots[k + 1] - knots[k]) / (double)parts[k])));
    }
  return ok;
}
// all ways to split n intervals into k nonempty runs
static void splits(size_t n, size_t k, std::vector<size_t>& cur, std::vector<std::vector<size_t>>& out) {
  if (k == 1) { cur.push_back(n); out.push_back(cur); cur.pop_back(); return; }
  for (size_t a = 1; a + (k - 1) <= n; a++) { cur.push_back(a); splits(n - a, k - 1, cur, out); cur.pop_back(); }
}
static void positions(SwervePathBuilder& b, const Shape& s) {
  SwerveSolution g = b.CalculateInitialGuess();
  size_t tot = 1;
  for (auto c : s.counts) tot += c;
  sym_check(g.x.size() == tot, "x_entry_per_sample");
  sym_check(g.y.size() == tot, "y_entry_per_sample");
  sym_check(g.thetacos.size() == tot, "thetacos_entry_per_sample");
  sym_check(g.thetasin.size() == tot, "thetasin_entry_per_sample");
  sym_check(g.dt.size() == tot, "dt_entry_per_sample");
  check_near(g.x[0], s.pts[0][0].x, "starts_at_first_guess");
  check_near(g.y[0], s.pts[0][0].y, "starts_at_first_guess");
  for (auto d : g.dt) {
    sym_check(d > 0.0, "steps_positive");
    check_near(d, g.dt[0], "steps_equal");
  }
  size_t at = 0;
  for (size_t w = 1; w < s.pts.size(); w++) {
    size_t n = s.counts[w - 1], k = s.pts[w].size();
    check_near(g.x[at + n], s.pts[w].back().x, "waypoint_sample_at_its_guess");
    check_near(g.y[at + n], s.pts[w].back().y, "waypoint_sample_at_its_guess");
    if (n >= k) {
      std::vector<double> kx{s.pts[w - 1].back().x}, ky{s.pts[w - 1].back().y};
      for (auto& p : s.pts[w]) { kx.push_back(p.x); ky.push_back(p.y); }
      std::vector<std::vector<size_t>> all;
      std::vector<size_t> cur;
      splits(n, k, cur, all);
      bool any = false;
      for (auto& parts : all)
        any = sym_or(any, sym_and(split(g.x, at, kx, parts, [](double a, double c) { return near(a, c); }),
                                  split(g.y, at, ky, parts, [](double a, double c) { return near(a, c); })));
      sym_check(any, "piecewise_linear_through_guess_points_in_order");
    }
    at += n;
  }
  sym_reach("end");
}
SYM_CASE(c04_shape) {
  SwervePathBuilder b;
  Shape s = build(b, SEG, CNT, EXTRA, false);
  positions(b, s);
}
// the default of 40 intervals, and others beyond the small counts
SYM_CASE(c04_full) {
  SwervePathBuilder b;
  Shape s;
  size_t k = sym_choice("shape", 0, 4);
  static const std::vector<std::vector<size_t>> counts{{40}, {40, 40, 40}, {9, 40}, {33}, {10, 130}}, extra{{0}, {0, 0, 0}, {4, 1}, {1}, {0, 0}};
  s.counts = counts[k];
  s.pts.resize(s.counts.size() + 1);
  for (size_t w = 0; w < s.pts.size(); w++) {
    for (size_t j = 0; j <= (w ? extra[k][w - 1] : 0); j++) s.pts[w].push_back({sym_within("x"), sym_within("y"), 0.25});
    b.WptInitialGuessPoint(w, pose(s.pts[w].back()));
    std::vector<Pose2d> e;
    for (size_t j = 0; j + 1 < s.pts[w].size(); j++) e.push_back(pose(s.pts[w][j]));
    if (!e.empty()) b.SgmtInitialGuessPoints(w - 1, e);
  }
  if (k > 1) b.ControlIntervalCounts(std::vector<size_t>(s.counts));
  positions(b, s);
}
// headings: one segment, equal steps the short way round
SYM_CASE(c04_heading) {
  SwervePathBuilder b;
  Shape s = build(b, 1, HCNT, HEXTRA, true);
  SwerveSolution g = b.CalculateInitialGuess();
  size_t n = s.counts[0], k = s.pts[1].size();
  if (g.thetacos.size() != n + 1 || g.thetasin.size() != n + 1) { sym_check(false, "theta_entry_per_sample"); return; }
  check_near(g.thetacos[0], std::cos(s.pts[0][0].h), "heading_starts_at_first_guess");
  check_near(g.thetasin[0], std::sin(s.pts[0][0].h), "heading_starts_at_first_guess");
  check_near(g.thetacos[n], std::cos(s.pts[1].back().h), "heading_of_waypoint_sample");
  check_near(g.thetasin[n], std::sin(s.pts[1].back().h), "heading_of_waypoint_sample");
  if (n >= k) {
    // reference headings: a0 plus equal parts of the shortest turn
    std::vector<double> a;
    a.push_back(std::atan2(std::sin(s.pts[0][0].h), std::cos(s.pts[0][0].h)));
    for (auto& p : s.pts[1]) a.push_back(std::atan2(std::sin(p.h), std::cos(p.h)));
    std::vector<double> turn;
    for (size_t i = 0; i < k; i++) {
      double d = a[i + 1] - a[i];
      d = sym_ite_f64(d > PI, d - 2 * PI, sym_ite_f64(d < -PI, d + 2 * PI, d));
      sym_assume(sym_and(d < PI - 1e-3, d > -PI + 1e-3));  // half turns have no short way
      turn.push_back(d);
    }
    std::vector<std::vector<size_t>> all;
    std::vector<size_t> cur;
    splits(n, k, cur, all);
    bool any = false;
    for (auto& parts : all) {
      bool ok = true;
      size_t at = 0;
      for (size_t q = 0; q < k; q++)
        for (size_t j = 1; j <= parts[q]; j++) {
          double h = a[q] + (double)j * (turn[q] / (double)parts[q]);
          ++at;
          ok = sym_all(ok, near(g.thetacos[at], std::cos(h)), near(g.thetasin[at], std::sin(h)));
        }
      any = sym_or(any, ok);
    }
    sym_check(any, "heading_turns_the_short_way_in_equal_steps");
    sym_reach("dense");
  } else {
    sym_reach("sparse");
  }
}
