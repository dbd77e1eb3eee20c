ID = 'c11-far-end'
PROPERTY = 'C11'
NEEDS = 'an obstacle point beyond the far end of a segment, near its line'
BREAKS = 'the projection is clamped at the start of the segment only, so beyond its end the distance is the one to the infinite line'
EDITS = [('include/trajopt/constraint/detail/LinePointDistance.hpp', 'auto tBounded = max(min(t, 1), 0);  // NOLINT', 'auto tBounded = max(max(t, min(t, 1)), 0);  // NOLINT')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
#include <trajopt/constraint/LinePointConstraint.hpp>
#include <trajopt/constraint/PointLineConstraint.hpp>
static bool admits(auto c, double x, double y) {
  sleipnir::OptimizationProblem p;
  auto v = [&](double x) { auto r = p.DecisionVariable(); r.SetValue(x); return r; };
  Pose2v pose{v(x), v(y), {v(1), v(0)}};
  c.Apply(p, pose, {v(0), v(0)}, v(0), {v(0), v(0)}, v(0));
  for (auto& e : p.m_s->ineqs) if (e.Value() < -1e-9) return false;
  return true;
}
int main() {
  for (double x : {-3.0, -1.2, 0.5, 2.0, 3.9, 5.5, 8.0})
    for (double y : {-1.5, -0.4, 0.2, 1.1}) {
      double dx = x < 0 ? x : x > 4 ? x - 4 : 0;
      bool want = std::hypot(dx, y) >= 1.0;
      CHECK(admits(PointLineConstraint{{0.0, 0.0}, {0.0, 0.0}, {4.0, 0.0}, 1.0}, x, y) == want, "point at %g %g", x, y);
      CHECK(admits(LinePointConstraint{{0.0, 0.0}, {4.0, 0.0}, {0.0, 0.0}, 1.0}, -x, -y) == want, "line at %g %g", -x, -y);
    }
}
'''
