ID = 'c22-starved'
PROPERTY = 'C22'
NEEDS = 'iterations that each come sooner than 1/60 s after the one before'
BREAKS = 'the time of the last publication is updated by withheld ones too, so quick iterations are never published'
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '    if (now - lastFrameTime < timePerFrame) {\n      return;\n    }\n\n    lastFrameTime = now;\n', '    auto elapsed = now - std::exchange(lastFrameTime, now);\n    if (elapsed < timePerFrame) {\n      return;\n    }\n')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
#include <chrono>
static int64_t g_clock;
namespace std::chrono::inline _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{g_clock}}; }
}
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(drivetrain());
  for (size_t w = 0; w <= 1; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
  b.ControlIntervalCounts({2});
  static int calls;
  b.AddIntermediateCallback([](SwerveSolution&, int64_t) { calls++; });
  sleipnir::stub::g_solve = [](PState& st, const sleipnir::SolverConfig&) {
    for (int i = 0; i < 100; i++) {
      st.callback(sleipnir::SolverIterationInfo{});
      g_clock += 10'000'000;  // 10 ms
    }
    return sleipnir::SolverStatus{};
  };
  SwerveTrajectoryGenerator g{b};
  g.Generate();
  CHECK(calls >= 45 && calls <= 60, "%d publications in one second", calls);
}
'''
