ID = 'c10-wide-tolerance'
PROPERTY = 'C10'
NEEDS = 'a heading tolerance above a quarter turn'
BREAKS = 'the cosine of the tolerance is taken as nonnegative, so tolerances above 90 degrees are tightened'
EDITS = [('include/trajopt/constraint/PointAtConstraint.hpp', '    problem.SubjectTo(dot >=\n                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));', '    double sine = std::sin(m_headingTolerance);\n    problem.SubjectTo(dot >=\n                      std::sqrt(1.0 - sine * sine) * sleipnir::hypot(dx, dy));')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
#include <trajopt/constraint/PointAtConstraint.hpp>
static bool admits(double tol, double heading) {
  sleipnir::OptimizationProblem p;
  auto v = [&](double x) { auto r = p.DecisionVariable(); r.SetValue(x); return r; };
  Pose2v pose{v(1), v(1), {v(std::cos(heading)), v(std::sin(heading))}};
  PointAtConstraint{{4.0, 5.0}, tol}.Apply(p, pose, {v(0), v(0)}, v(0), {v(0), v(0)}, v(0));
  for (auto& e : p.m_s->ineqs) if (e.Value() < -1e-9) return false;
  for (auto& e : p.m_s->eqs) if (std::fabs(e.Value()) > 1e-9) return false;
  return true;
}
int main() {
  double to = std::atan2(4.0, 3.0);
  for (double tol : {0.0, 0.3, 1.0, 1.5, 1.8, 2.5, 3.1})
    for (double err : {-3.05, -2.0, -1.7, -1.2, -0.5, 0.1, 0.8, 1.4, 1.9, 2.8})
      CHECK(admits(tol, to + err) == (std::fabs(err) <= tol), "tolerance %g, error %g", tol, err);
}
'''
