ID = 'c17-own-force-limit'
PROPERTY = 'C17'
NEEDS = 'modules with different maximum torques'
BREAKS = "every module gets the first module's force limit"
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '      double maxForce = wheelMaxTorque / wheelRadius;', '      const auto& reference = path.drivetrain.modules.front();\n      double maxForce = reference.wheelMaxTorque / wheelRadius;')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  for (double torque : {1.0, 3.0}) {
    auto d = drivetrain(40, 5, 100, 2.0);
    d.modules[2].wheelMaxTorque = torque;  // 2: at most 25 or 75 N
    SwervePathBuilder b;
    b.SetDrivetrain(d);
    for (size_t w = 0; w <= 1; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
    b.ControlIntervalCounts({2});
    Problem p{b};
    // the other three modules push 40 N each; the third one f
    for (double f : {10.0, 24.0, 26.0, 45.0, 55.0, 74.0, 76.0}) {
      auto t = roll({2}, {0.02}, {0, 0, 0, 0, 0, 0}, [](size_t) { return V{0, 0, 0}; });
      forces(t, d);
      p.set(t);
      double m = 0;
      for (auto& e : p.st->ineqs) m = std::max(m, -e.Value());
      CHECK(m <= 1e-9);
      p.set(V{p.map.moduleFX[1][2]}, V{f});
      m = 0;
      for (auto& e : p.st->ineqs) m = std::max(m, -e.Value());
      CHECK((m <= 1e-9) == (f <= torque / 0.04), "torque %g, force %g", torque, f);
    }
  }
}
'''
