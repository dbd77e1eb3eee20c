ID = 'c28-half-turn'
PROPERTY = 'C28'
NEEDS = 'a guess whose heading crosses half a turn between two samples'
BREAKS = 'the starting spin is the difference of the two headings as angles, so crossing half a turn starts with a full reverse turn'
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '        Rotation2d{thetacos, thetasin}\n            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})\n            .Radians() /\n', '        (Rotation2d{thetacos, thetasin}.Radians() -\n         Rotation2d{last_thetacos, last_thetasin}.Radians()) /\n')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  for (double from : {0.2, 2.9, -3.0}) {
    SwervePathBuilder b;
    b.SetDrivetrain(drivetrain());
    b.WptInitialGuessPoint(0, {0, 0, {from}});
    b.WptInitialGuessPoint(1, {1, 0, {from + 0.5}});
    b.ControlIntervalCounts({2});
    auto g = b.CalculateInitialGuess();
    Problem p{b};
    for (size_t i = 1; i <= 2; i++)
      CHECK(near(p.starting(p.map.omega[i]), 0.25 / g.dt[i], 1e-6), "from %g: %g instead of %g", from, p.starting(p.map.omega[i]), 0.25 / g.dt[i]);
  }
}
'''
