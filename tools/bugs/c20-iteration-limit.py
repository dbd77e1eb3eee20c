ID = 'c20-iteration-limit'
PROPERTY = 'C20'
NEEDS = 'a solver that gives up at its iteration limit'
BREAKS = 'running out of iterations is reported as a solution'
EDITS = [('src/SwerveTrajectoryGenerator.cpp', '  if (static_cast<int>(status.exitCondition) < 0 ||', '  if ((static_cast<int>(status.exitCondition) < 0 &&\n       status.exitCondition !=\n           sleipnir::SolverExitCondition::kMaxIterationsExceeded) ||')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
static int g_exit;
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(drivetrain());
  for (size_t w = 0; w <= 1; w++) b.WptInitialGuessPoint(w, {1.0 * w, 0, {0}});
  b.ControlIntervalCounts({2});
  for (int e = -7; e <= 2; e++) {
    g_exit = e;
    sleipnir::stub::g_solve = [](PState&, const sleipnir::SolverConfig&) {
      sleipnir::SolverStatus s;
      s.exitCondition = (sleipnir::SolverExitCondition)g_exit;
      return s;
    };
    SwerveTrajectoryGenerator g{b};
    auto r = g.Generate();
    auto c = (sleipnir::SolverExitCondition)e;
    bool good = c == sleipnir::SolverExitCondition::kSuccess || c == sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance;
    CHECK(r.has_value() == good, "status %d", e);
    if (!good) CHECK(r.error() == std::string{sleipnir::ToMessage(c)}, "status %d", e);
  }
}
'''
