ID = 'c29-running-minimum'
PROPERTY = 'C29'
NEEDS = 'modules with different maximum wheel speeds, the slow one not listed last'
BREAKS = "a module's speed limit is the slowest of those listed up to it, so the order of the modules matters"
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '    auto vWrtRobot = v.RotateBy(-theta);\n', '    auto vWrtRobot = v.RotateBy(-theta);\n    double maxWheelVelocity = INFINITY;\n'), ('src/SwerveTrajectoryGenerator.cpp', '      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;', '      maxWheelVelocity =\n          std::min(maxWheelVelocity, wheelRadius * wheelMaxAngularVelocity);')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  // turning on the spot, the wheels on the far corners move faster
  for (int slow = 0; slow < 2; slow++) {
    auto d = drivetrain(40, 5, 100, 40);
    d.modules = {SwerveModule{{1, 0}, 0.04, 100, 40}, SwerveModule{{-1, 0}, 0.04, 100, 40}};
    d.modules[slow].wheelMaxAngularVelocity = 25;  // 1 m/s
    d.modules[slow].translation = {slow ? -0.25 : 0.25, 0.0};
    SwervePathBuilder b;
    b.SetDrivetrain(d);
    for (size_t w = 0; w <= 1; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
    b.ControlIntervalCounts({2});
    Problem p{b};
    auto t = roll({2}, {0.05}, {0, 0, 0, 0, 0, 3}, [](size_t) { return V{0, 0, 0}; });
    forces(t, d);
    for (auto* q : {&t.fx, &t.fy}) for (auto& r : *q) for (double& f : r) f = 0;
    CHECK(p.admits(t), "slow module listed %s: violation %g", slow ? "last" : "first", p.violation());
  }
}
'''
