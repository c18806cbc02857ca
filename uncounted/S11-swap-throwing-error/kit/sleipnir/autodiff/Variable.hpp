// Simulated Sleipnir (see /verif/DESIGN.md): same API surface as the pinned
// Sleipnir revision, implemented by the deterministic simulator. A Variable is
// a handle to an expression node that the simulator owns; nothing here solves.
#pragma once

// as the real headers (through Eigen) do
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <span>
#include <string>
#include <utility>
#include <vector>

#include <algorithm>
#include <concepts>
#include <cstdint>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <vector>

namespace simsolver {
struct Node;
enum class Op : uint8_t {
  kConst, kDecision, kAdd, kSub, kMul, kDiv, kNeg, kAbs, kAcos, kAsin, kAtan,
  kAtan2, kCos, kCosh, kErf, kExp, kHypot, kLog, kLog10, kPow, kSign, kSin,
  kSinh, kSqrt, kTan, kTanh
};
Node* MakeConst(double value);
Node* MakeOp(Op op, Node* a, Node* b = nullptr);
double NodeValue(Node* n);
void NodeSet(Node* n, double value);
}  // namespace simsolver

namespace sleipnir {

enum class ExpressionType : uint8_t {
  kNone, kConstant, kLinear, kQuadratic, kNonlinear
};

class Variable {
 public:
  Variable() : expr{simsolver::MakeConst(0.0)} {}
  Variable(double value) : expr{simsolver::MakeConst(value)} {}  // NOLINT
  Variable(int value)                                            // NOLINT
      : expr{simsolver::MakeConst(static_cast<double>(value))} {}
  explicit Variable(simsolver::Node* n) : expr{n} {}

  Variable& operator=(double value) {
    expr = simsolver::MakeConst(value);
    return *this;
  }
  Variable& operator=(int value) {
    expr = simsolver::MakeConst(value);
    return *this;
  }
  void SetValue(double value) { simsolver::NodeSet(expr, value); }
  double Value() const { return simsolver::NodeValue(expr); }
  ExpressionType Type() const { return ExpressionType::kNonlinear; }

  friend Variable operator+(const Variable& l, const Variable& r) {
    return Variable{simsolver::MakeOp(simsolver::Op::kAdd, l.expr, r.expr)};
  }
  friend Variable operator-(const Variable& l, const Variable& r) {
    return Variable{simsolver::MakeOp(simsolver::Op::kSub, l.expr, r.expr)};
  }
  friend Variable operator*(const Variable& l, const Variable& r) {
    return Variable{simsolver::MakeOp(simsolver::Op::kMul, l.expr, r.expr)};
  }
  friend Variable operator/(const Variable& l, const Variable& r) {
    return Variable{simsolver::MakeOp(simsolver::Op::kDiv, l.expr, r.expr)};
  }
  Variable& operator+=(const Variable& r) { return *this = *this + r; }
  Variable& operator-=(const Variable& r) { return *this = *this - r; }
  Variable& operator*=(const Variable& r) { return *this = *this * r; }
  Variable& operator/=(const Variable& r) { return *this = *this / r; }
  friend Variable operator-(const Variable& l) {
    return Variable{simsolver::MakeOp(simsolver::Op::kNeg, l.expr)};
  }
  friend Variable operator+(const Variable& l) { return l; }

  simsolver::Node* expr;
};

#define SIM_FN1(name, op)                                       \
  inline Variable name(const Variable& x) {                     \
    return Variable{simsolver::MakeOp(simsolver::Op::op, x.expr)}; \
  }
SIM_FN1(abs, kAbs)
SIM_FN1(acos, kAcos)
SIM_FN1(asin, kAsin)
SIM_FN1(atan, kAtan)
SIM_FN1(cos, kCos)
SIM_FN1(cosh, kCosh)
SIM_FN1(erf, kErf)
SIM_FN1(exp, kExp)
SIM_FN1(log, kLog)
SIM_FN1(log10, kLog10)
SIM_FN1(sign, kSign)
SIM_FN1(sin, kSin)
SIM_FN1(sinh, kSinh)
SIM_FN1(sqrt, kSqrt)
SIM_FN1(tan, kTan)
SIM_FN1(tanh, kTanh)
#undef SIM_FN1

inline Variable atan2(const Variable& y, const Variable& x) {
  return Variable{simsolver::MakeOp(simsolver::Op::kAtan2, y.expr, x.expr)};
}
inline Variable hypot(const Variable& x, const Variable& y) {
  return Variable{simsolver::MakeOp(simsolver::Op::kHypot, x.expr, y.expr)};
}
inline Variable hypot(const Variable& x, const Variable& y, const Variable& z) {
  return sqrt(x * x + y * y + z * z);
}
inline Variable pow(const Variable& x, const Variable& p) {
  return Variable{simsolver::MakeOp(simsolver::Op::kPow, x.expr, p.expr)};
}

}  // namespace sleipnir
