ID = 'c18-weights'
PROPERTY = 'C18'
NEEDS = 'segments with different interval counts'
BREAKS = "the objective adds one time step per segment instead of the segment's duration"
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);', '    auto T_sgmt = dt_sgmt * static_cast<int>(N.front());')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  for (size_t second : {2, 5}) {
    SwervePathBuilder b;
    b.SetDrivetrain(drivetrain());
    for (size_t w = 0; w <= 2; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
    b.ControlIntervalCounts({2, second});
    Problem p{b};
    p.set(p.map.dt, V(p.map.dt.size(), 0.0));
    p.set(V{p.map.dt.front()}, V{0.5});
    p.set(V{p.map.dt.back()}, V{0.125});
    CHECK(near(p.objective(), 2 * 0.5 + second * 0.125), "second segment of %zu: %g", second, p.objective());
  }
}
'''
