// Simulated Sleipnir: the optimization problem. Decision variables, constraints
// and cost are recorded; Solve() is played by the simulator.
#pragma once

#include <concepts>
#include <functional>
#include <utility>
#include <vector>

#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"
#include "sleipnir/optimization/Constraints.hpp"
#include "sleipnir/optimization/SolverConfig.hpp"
#include "sleipnir/optimization/SolverExitCondition.hpp"
#include "sleipnir/optimization/SolverIterationInfo.hpp"
#include "sleipnir/optimization/SolverStatus.hpp"

namespace sleipnir {

class OptimizationProblem {
 public:
  OptimizationProblem() noexcept = default;

  [[nodiscard]] Variable DecisionVariable();
  [[nodiscard]] VariableMatrix DecisionVariable(int rows, int cols = 1);
  [[nodiscard]] VariableMatrix SymmetricDecisionVariable(int rows);

  void Minimize(const Variable& cost);
  void Minimize(Variable&& cost);
  void Maximize(const Variable& objective);
  void Maximize(Variable&& objective);

  void SubjectTo(const EqualityConstraints& constraint);
  void SubjectTo(EqualityConstraints&& constraint);
  void SubjectTo(const InequalityConstraints& constraint);
  void SubjectTo(InequalityConstraints&& constraint);

  SolverStatus Solve(const SolverConfig& config = SolverConfig{});

  template <typename F>
    requires requires(F callback, const SolverIterationInfo& info) {
      { callback(info) } -> std::same_as<void>;
    }
  void Callback(F&& callback) {
    SetCallback(
        [=, callback = std::forward<F>(callback)](
            const SolverIterationInfo& info) mutable {
          callback(info);
          return false;
        });
  }
  template <typename F>
    requires requires(F callback, const SolverIterationInfo& info) {
      { callback(info) } -> std::same_as<bool>;
    }
  void Callback(F&& callback) {
    SetCallback(std::function<bool(const SolverIterationInfo&)>(
        std::forward<F>(callback)));
  }

  // Simulator access
  std::vector<Variable> m_decisionVariables;
  std::vector<Variable> m_equalityConstraints;
  std::vector<Variable> m_inequalityConstraints;
  std::vector<Variable> m_cost;  // empty or one; minimised
  std::function<bool(const SolverIterationInfo&)> m_callback;

 private:
  void SetCallback(std::function<bool(const SolverIterationInfo&)> f);
};

}  // namespace sleipnir
