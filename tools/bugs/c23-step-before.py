ID = 'c23-step-before'
PROPERTY = 'C23'
NEEDS = 'a solution whose time steps differ'
BREAKS = 'the timestamp advances by the step after the sample instead of the one before it'
EDITS = [('include/trajopt/trajectory/HolonomicTrajectory.hpp', '        ts += solution.dt[samp - 1];', '        ts += solution.dt[samp < solution.dt.size() ? samp : samp - 1];')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  SwerveSolution s;
  for (int i = 0; i < 4; i++) {
    for (auto* q : {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) q->push_back(i);
    s.moduleFX.push_back({1});
    s.moduleFY.push_back({2});
  }
  s.dt = {0.5, 0.5, 0.25};
  HolonomicTrajectory t{s};
  V want{0, 0.5, 1.0, 1.25};
  for (int i = 0; i < 4; i++) CHECK(near(t.samples[i].timestamp, want[i]), "sample %d at %g", i, t.samples[i].timestamp);
}
'''
