ID = 'c19-step-order'
PROPERTY = 'C19'
NEEDS = 'two segments whose time steps differ'
BREAKS = 'the time steps of the segments are listed last segment first'
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '    for (size_t i = 0; i < N_sgmt; ++i) {\n      dtPerSamp.push_back(dt_val);\n    }', '    dtPerSamp.insert(dtPerSamp.begin(), N_sgmt, dt_val);')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  auto d = drivetrain();
  auto acc = [](size_t i) { return V{0.3 + 0.1 * i, -0.2 * i, 0.4 - 0.3 * i}; };
  SwervePathBuilder b;
  b.SetDrivetrain(d);
  for (size_t w = 0; w <= 2; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
  b.ControlIntervalCounts({1, 2});
  Problem p{b};
  auto t = roll({1, 2}, {0.2, 0.1}, {0, 0, 0.3, 0.2, -0.1, 0.1}, acc);
  forces(t, d);
  // the steps of the solution and its positions belong together
  CHECK(p.admits(t), "violation %g", p.violation());
}
'''
