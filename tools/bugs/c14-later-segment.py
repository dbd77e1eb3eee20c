ID = 'c14-later-segment'
PROPERTY = 'C14'
NEEDS = 'two segments with different interval counts and a constraint on the second'
BREAKS = "the range of a segment's samples is computed with the first segment's count, so a longer later segment is partly unconstrained"
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);', '      size_t endIndex = std::min(startIndex + N.front(), x.size());')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
#include <trajopt/constraint/LinearVelocityMaxMagnitudeConstraint.hpp>
int main() {
  auto d = drivetrain();
  SwervePathBuilder b;
  b.SetDrivetrain(d);
  for (size_t w = 0; w <= 2; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
  b.SgmtConstraint(1, 2, LinearVelocityMaxMagnitudeConstraint{1.0});
  b.ControlIntervalCounts({2, 4});
  Problem p{b};
  for (size_t fast = 0; fast <= 6; fast++) {
    auto t = roll({2, 4}, {0.2, 0.2}, {0, 0, 0, fast == 0 ? 1.5 : 0.5, 0, 0}, [&](size_t i) {
      if (fast && i == fast) return V{5, 0, 0};
      if (i == fast + 1) return V{-5, 0, 0};
      return V{0, 0, 0};
    });
    forces(t, d);
    CHECK(p.admits(t) == (fast < 2), "1.5 m/s at sample %zu: violation %g", fast, p.violation());
  }
}
'''
