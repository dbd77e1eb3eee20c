// Stand-in for Sleipnir's OptimizationProblem.  It records what is posted; the
// solve itself is a hook that the harness defines (a nondeterministic solver).
#pragma once
#include <chrono>
#include <concepts>
#include <functional>
#include <limits>
#include <optional>
#include <utility>
#include <vector>
#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"
#include "sleipnir/optimization/Constraints.hpp"
#include "sleipnir/optimization/SolverExitCondition.hpp"
namespace sleipnir {
struct SolverConfig {
  double tolerance = 1e-8;
  int maxIterations = 5000;
  double acceptableTolerance = 1e-6;
  int maxAcceptableIterations = 15;
  std::chrono::duration<double> timeout{std::numeric_limits<double>::infinity()};
  bool feasibleIPM = false;
  bool diagnostics = false;
  bool spy = false;
};
struct SolverStatus {
  ExpressionType costFunctionType = ExpressionType::kNone;
  ExpressionType equalityConstraintType = ExpressionType::kNone;
  ExpressionType inequalityConstraintType = ExpressionType::kNone;
  SolverExitCondition exitCondition = SolverExitCondition::kSuccess;
  double cost = 0.0;
};
struct SolverIterationInfo {
  int iteration = 0;
};
class OptimizationProblem;
namespace stub {
struct State {
  std::vector<Variable> vars;
  std::vector<Variable> eqs;    // == 0
  std::vector<Variable> ineqs;  // >= 0
  std::optional<Variable> objective;
  bool maximize = false;
  std::function<bool(const SolverIterationInfo&)> callback = [](const SolverIterationInfo&) { return false; };
  long objectives = 0;
  SolverConfig lastConfig;
};
// Set by the harness: performs the solve.
inline SolverStatus (*g_solve)(State&, const SolverConfig&) = nullptr;
inline void (*g_onCallback)(State&) = nullptr;  // called when a callback is registered
inline std::vector<State*> g_states;            // every problem, in creation order
}  // namespace stub
class OptimizationProblem {
 public:
  OptimizationProblem() : m_s{new stub::State} { stub::g_states.push_back(m_s); }
  OptimizationProblem(const OptimizationProblem& o) : m_s{new stub::State(*o.m_s)} { stub::g_states.push_back(m_s); }
  OptimizationProblem(OptimizationProblem&& o) : m_s{o.m_s} { o.m_s = new stub::State; }
  OptimizationProblem& operator=(const OptimizationProblem& o) {
    *m_s = *o.m_s;
    return *this;
  }
  OptimizationProblem& operator=(OptimizationProblem&& o) {
    std::swap(m_s, o.m_s);
    return *this;
  }
  Variable DecisionVariable() {
    Variable v{stub::mkLeaf(0.0, m_s)};
    m_s->vars.push_back(v);
    return v;
  }
  VariableMatrix DecisionVariable(int rows, int cols = 1) {
    VariableMatrix m{rows, cols};
    for (auto& e : m) e = DecisionVariable();
    return m;
  }
  void Minimize(const Variable& cost) { setObj(cost, false); }
  void Minimize(Variable&& cost) { setObj(cost, false); }
  void Maximize(const Variable& o) { setObj(o, true); }
  void Maximize(Variable&& o) { setObj(o, true); }
  void SubjectTo(const EqualityConstraints& c) {
    for (auto& e : c.constraints) m_s->eqs.push_back(e);
  }
  void SubjectTo(EqualityConstraints&& c) {
    for (auto& e : c.constraints) m_s->eqs.push_back(e);
  }
  void SubjectTo(const InequalityConstraints& c) {
    for (auto& e : c.constraints) m_s->ineqs.push_back(e);
  }
  void SubjectTo(InequalityConstraints&& c) {
    for (auto& e : c.constraints) m_s->ineqs.push_back(e);
  }
  SolverStatus Solve(const SolverConfig& config = SolverConfig{}) {
    m_s->lastConfig = config;
    return stub::g_solve ? stub::g_solve(*m_s, config) : SolverStatus{};
  }
  template <typename F>
    requires std::invocable<F, const SolverIterationInfo&> &&
             std::same_as<std::invoke_result_t<F, const SolverIterationInfo&>, void>
  void Callback(F&& f) {
    m_s->callback = [f = std::forward<F>(f)](const SolverIterationInfo& i) mutable {
      f(i);
      return false;
    };
    if (stub::g_onCallback) stub::g_onCallback(*m_s);
  }
  template <typename F>
    requires std::invocable<F, const SolverIterationInfo&> &&
             std::convertible_to<std::invoke_result_t<F, const SolverIterationInfo&>, bool>
  void Callback(F&& f) {
    m_s->callback = [f = std::forward<F>(f)](const SolverIterationInfo& i) mutable -> bool { return f(i); };
    if (stub::g_onCallback) stub::g_onCallback(*m_s);
  }
  stub::State* m_s;

 private:
  void setObj(const Variable& c, bool mx) {
    m_s->objective = c;
    m_s->maximize = mx;
    ++m_s->objectives;
  }
};
}  // namespace sleipnir
