ID = 'c21-stale-request'
PROPERTY = 'C21'
NEEDS = 'a cancellation request made between two generations'
BREAKS = 'the cancellation flag is cleared after a generation instead of before it, so a stale request stops the next one'
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '  GetCancellationFlag() = 0;\n', ''), ('src/SwerveTrajectoryGenerator.cpp', '  auto status = problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});', '  auto status = problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});\n  GetCancellationFlag() = 0;')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
static bool g_cancel;
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(drivetrain());
  for (size_t w = 0; w <= 1; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
  b.ControlIntervalCounts({2});
  sleipnir::stub::g_solve = [](PState& st, const sleipnir::SolverConfig&) {
    sleipnir::SolverStatus s;
    for (int i = 0; i < 3; i++) {
      if (g_cancel && i == 1) GetCancellationFlag() = 1;
      sleipnir::SolverIterationInfo info;
      if (st.callback(info)) { s.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop; return s; }
    }
    return s;
  };
  SwerveTrajectoryGenerator g{b};
  CHECK(g.Generate().has_value());
  g_cancel = true;
  CHECK(!g.Generate().has_value());
  g_cancel = false;
  CHECK(g.Generate().has_value());
  GetCancellationFlag() = 1;
  CHECK(g.Generate().has_value(), "an old request stops a new generation");
}
'''
