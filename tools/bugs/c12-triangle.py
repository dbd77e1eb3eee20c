ID = 'c12-triangle'
PROPERTY = 'C12'
NEEDS = 'a three-cornered obstacle applied to a segment, touched along its closing edge'
BREAKS = 'the edge that closes a triangle is not an obstacle for segments'
EDITS = [('src/path/SwervePathBuilder.cpp', '        if (obstacleCornerCount >= 3) {\n          SgmtConstraint(', '        if (obstacleCornerCount > 3) {\n          SgmtConstraint(')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  auto d = drivetrain(45, 6, 80);
  SwervePathBuilder b;
  b.SetDrivetrain(d);
  b.AddBumpers(Bumpers{0.0, {{0.1, 0.1}, {-0.1, 0.1}, {-0.1, -0.1}, {0.1, -0.1}}});
  b.WptInitialGuessPoint(0, {0, 0, {0}});
  b.WptInitialGuessPoint(1, {6, 0, {0}});
  // corners far apart: the closing edge runs along x = 0.7
  b.SgmtObstacle(0, 1, Obstacle{0.05, {{0.7, 9}, {20, 0}, {0.7, -9}}});
  b.ControlIntervalCounts({2});
  Problem p{b};
  auto in = roll({2}, {0.25}, {0, 0, 0, 1.2, 0, 0}, [](size_t) { return V{0, 0, 0}; });
  forces(in, d);
  CHECK(!p.admits(in), "a robot on the closing edge is admitted");
  auto out = roll({2}, {0.25}, {0, 0, 0, 0.4, 0, 0}, [](size_t) { return V{0, 0, 0}; });
  forces(out, d);
  CHECK(p.admits(out), "violation %g", p.violation());
}
'''
