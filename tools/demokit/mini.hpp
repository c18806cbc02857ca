// A small stand-in for Sleipnir's solver, for demonstrations: it records what
// is posed and lets the demonstration decide what the solver does.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

#include <sleipnir/optimization/OptimizationProblem.hpp>

#include "trajopt/SwerveTrajectoryGenerator.hpp"

using Problem = sleipnir::OptimizationProblem;

// What Solve() does on this thread: returns the solver's exit code.
extern thread_local std::function<int(Problem&)> onSolve;
// The configuration of the last solve on this thread.
extern thread_local sleipnir::SolverConfig lastConfig;

inline size_t vars(Problem& p) { return p.m_decisionVariables.size(); }
double get(Problem& p, size_t i);
void put(Problem& p, size_t i, double v);
void putAll(Problem& p, const std::vector<double>& v);
std::vector<double> getAll(Problem& p);
double worst(Problem& p);  // largest violation of the posed constraints
double cost(Problem& p);
// one solver iteration; true = the library asked to stop
inline bool iterate(Problem& p, int iteration) {
  return p.m_callback && p.m_callback(sleipnir::SolverIterationInfo{iteration});
}
// every posed constraint and the cost at a few points, as one number each
struct Posed {
  std::vector<long long> eq, in;
  long long cost = 0;
  bool operator==(const Posed&) const = default;
};
Posed posed(Problem& p);

// Which decision variable is which
struct Map {
  std::vector<int> dt, x, y, c, s, vx, vy, w, ax, ay, al;
  std::vector<std::vector<int>> fx, fy;
};
Map mapOf(trajopt::SwervePathBuilder builder);
// the values `soln` gives the decision variables (dt is per sample there)
std::vector<double> assign(const Map& m, const trajopt::SwerveSolution& soln,
                           size_t n);
// a robot standing still for `dt` per step, samples and intervals as in m
trajopt::SwerveSolution still(const Map& m, double x, double y, double heading,
                              double dt);

inline int failures = 0;
#define CHECK(cond)                                                     \
  do {                                                                  \
    if (!(cond)) {                                                      \
      std::printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #cond);     \
      ++failures;                                                       \
    }                                                                   \
  } while (0)

inline trajopt::SwerveDrivetrain drivetrain(double size = 0.5,
                                            double moi = 6.0) {
  return trajopt::SwerveDrivetrain{45.0, moi,
                                   {{{+size, +size}, 0.04, 70.0, 2.0},
                                    {{+size, -size}, 0.04, 70.0, 2.0},
                                    {{-size, +size}, 0.04, 70.0, 2.0},
                                    {{-size, -size}, 0.04, 70.0, 2.0}}};
}
