ID = 'c16-six-modules'
PROPERTY = 'C16'
NEEDS = 'a drivetrain with more than four modules'
BREAKS = "only the first four modules' forces count towards the torque"
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '    sleipnir::Variable tau_net = 0.0;\n    for (size_t moduleIndex = 0; moduleIndex < path.drivetrain.modules.size();', '    sleipnir::Variable tau_net = 0.0;\n    for (size_t moduleIndex = 0;\n         moduleIndex < std::min<size_t>(path.drivetrain.modules.size(), 4);')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  auto d = drivetrain();
  auto acc = [](size_t i) { return V{0.3 + 0.1 * i, -0.2 * i, 0.4 - 0.3 * i}; };
  for (int extra = 0; extra <= 2; extra++) {
    if (extra) d.modules.push_back(SwerveModule{{0.1 * extra, -0.7 + extra}, 0.04, 100, 40});
    SwervePathBuilder b;
    b.SetDrivetrain(d);
    for (size_t w = 0; w <= 1; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
    b.ControlIntervalCounts({3});
    Problem p{b};
    auto t = roll({3}, {0.02}, {0, 0, 0.3, 0.2, -0.1, 0.1}, acc);
    forces(t, d);
    CHECK(p.admits(t, 1e-6), "%zu modules: violation %g", d.modules.size(), p.violation());
  }
}
'''
