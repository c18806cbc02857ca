// Simulated Sleipnir: per-iteration information (matrices left out).
#pragma once

namespace sleipnir {

struct SolverIterationInfo {
  int iteration = 0;
};

}  // namespace sleipnir
