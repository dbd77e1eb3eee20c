ID = 'c18-remembered-width'
PROPERTY = 'C30'
NEEDS = 'an earlier generator for a robot with a smaller module spacing'
BREAKS = 'the module spacing is remembered across generators, so a larger robot built later is limited by a smaller one built before'
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '  double minWidth = INFINITY;', '  static double minWidth = INFINITY;')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  auto make = [](double scale) {
    auto d = drivetrain();
    for (auto& m : d.modules) m.translation = m.translation * scale;
    SwervePathBuilder b;
    b.SetDrivetrain(d);
    for (size_t w = 0; w <= 1; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
    b.ControlIntervalCounts({2});
    return b;
  };
  auto admits = [&](double scale, double dt) {
    Problem p{make(scale)};
    auto t = roll({2}, {dt}, {0, 0, 0, 0.1, 0, 0}, [](size_t) { return V{0, 0, 0}; });
    forces(t, make(scale).GetPath().drivetrain);
    return p.admits(t);
  };
  CHECK(admits(1.0, 0.2));
  CHECK(!admits(0.5, 0.2));
  CHECK(admits(1.0, 0.2), "a generator for a larger robot is limited by the one built before");
}
'''
