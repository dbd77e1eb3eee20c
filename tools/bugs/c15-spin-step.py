ID = 'c15-spin-step'
PROPERTY = 'C15'
NEEDS = 'two segments whose time steps differ and a robot whose spin changes in the second'
BREAKS = "the angular velocity of every segment is integrated with the first segment's time step"
EDITS = [('src/SwerveTrajectoryGenerator.cpp', 'problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);', 'problem.SubjectTo(omega_n_1 + alpha_n * dt.front() == omega_n);')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  auto d = drivetrain();
  auto acc = [](size_t i) { return V{0.3 + 0.1 * i, -0.2 * i, 0.4 - 0.3 * i}; };
  for (double second : {0.2, 0.1}) {
    SwervePathBuilder b;
    b.SetDrivetrain(d);
    for (size_t w = 0; w <= 2; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
    b.ControlIntervalCounts({2, 2});
    Problem p{b};
    auto t = roll({2, 2}, {0.2, second}, {0, 0, 0.3, 0.2, -0.1, 0.1}, acc);
    forces(t, d);
    CHECK(p.admits(t), "steps 0.25 and %g: violation %g", second, p.violation());
    t.w[3] += 0.05;
    CHECK(!p.admits(t));
  }
}
'''
