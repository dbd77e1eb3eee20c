ID = 'c13-guess-kept'
PROPERTY = 'C13'
NEEDS = "intermediate guess points given before the waypoint's own guess"
BREAKS = "setting a waypoint's guess throws away the intermediate guess points of the segment before it"
EDITS = [('src/path/SwervePathBuilder.cpp', '  initialGuessPoints.at(wptIndex).back() = poseGuess;', '  initialGuessPoints.at(wptIndex) = {poseGuess};')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(drivetrain());
  b.WptInitialGuessPoint(0, {0, 0, {0}});
  b.SgmtInitialGuessPoints(0, {Pose2d{1, 5, {0}}});
  b.PoseWpt(1, 4, 0, 0);
  b.ControlIntervalCounts({4});
  auto g = b.CalculateInitialGuess();
  CHECK(g.y.size() == 5);
  CHECK(near(g.x[2], 1) && near(g.y[2], 5), "the guess passes (%g, %g)", g.x[2], g.y[2]);
  CHECK(near(g.x[4], 4) && near(g.y[4], 0));
}
'''
