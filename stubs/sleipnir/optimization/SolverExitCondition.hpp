#pragma once
#include <cstdint>
#include <string_view>
namespace sleipnir {
enum class SolverExitCondition : int8_t {
  kSuccess = 0,
  kSolvedToAcceptableTolerance = 1,
  kCallbackRequestedStop = 2,
  kTooFewDOFs = -1,
  kLocallyInfeasible = -2,
  kFeasibilityRestorationFailed = -3,
  kNonfiniteInitialCostOrConstraints = -4,
  kDivergingIterates = -5,
  kMaxIterationsExceeded = -6,
  kTimeout = -7
};
constexpr std::string_view ToMessage(const SolverExitCondition& e) {
  switch (e) {
    case SolverExitCondition::kSuccess: return "solved to desired tolerance";
    case SolverExitCondition::kSolvedToAcceptableTolerance: return "solved to acceptable tolerance";
    case SolverExitCondition::kCallbackRequestedStop: return "callback requested stop";
    case SolverExitCondition::kTooFewDOFs: return "too few degrees of freedom";
    case SolverExitCondition::kLocallyInfeasible: return "locally infeasible";
    case SolverExitCondition::kFeasibilityRestorationFailed: return "feasibility restoration failed";
    case SolverExitCondition::kNonfiniteInitialCostOrConstraints: return "nonfinite initial cost or constraints";
    case SolverExitCondition::kDivergingIterates: return "diverging iterates";
    case SolverExitCondition::kMaxIterationsExceeded: return "maximum iterations exceeded";
    case SolverExitCondition::kTimeout: return "solution returned after timeout";
    default: return "unknown";
  }
}
}  // namespace sleipnir
