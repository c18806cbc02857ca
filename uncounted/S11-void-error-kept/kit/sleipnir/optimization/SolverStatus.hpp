// Simulated Sleipnir: solver status.
#pragma once

#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/optimization/SolverExitCondition.hpp"

namespace sleipnir {

struct SolverStatus {
  ExpressionType costFunctionType = ExpressionType::kNone;
  ExpressionType equalityConstraintType = ExpressionType::kNone;
  ExpressionType inequalityConstraintType = ExpressionType::kNone;
  SolverExitCondition exitCondition = SolverExitCondition::kSuccess;
  double cost = 0.0;
};

}  // namespace sleipnir
