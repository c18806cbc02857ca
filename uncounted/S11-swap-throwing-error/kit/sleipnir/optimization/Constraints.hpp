// Simulated Sleipnir: constraint containers.
#pragma once

#include <algorithm>
#include <concepts>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <vector>

#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"

namespace sleipnir {

namespace detail {
template <typename T>
concept SleipnirType = std::same_as<std::decay_t<T>, Variable> ||
                       std::same_as<std::decay_t<T>, VariableMatrix>;
template <typename T>
concept NumberType = std::same_as<std::decay_t<T>, double> ||
                     std::same_as<std::decay_t<T>, int>;
template <typename T>
concept ScalarLike = NumberType<T> || std::same_as<std::decay_t<T>, Variable>;
template <typename T>
concept AnyLike = SleipnirType<T> || NumberType<T>;

template <typename T>
VariableMatrix ToMatrix(const T& v) {
  if constexpr (std::same_as<std::decay_t<T>, VariableMatrix>) {
    return v;
  } else {
    return VariableMatrix{Variable{v}};
  }
}

// lhs - rhs, elementwise, broadcasting scalars
template <typename L, typename R>
std::vector<Variable> MakeConstraints(const L& lhs, const R& rhs) {
  std::vector<Variable> out;
  VariableMatrix l = ToMatrix(lhs);
  VariableMatrix r = ToMatrix(rhs);
  int n = std::max(l.Rows() * l.Cols(), r.Rows() * r.Cols());
  bool ls = l.Rows() * l.Cols() == 1;
  bool rs = r.Rows() * r.Cols() == 1;
  for (int i = 0; i < n; ++i) {
    out.push_back(l(ls ? 0 : i) - r(rs ? 0 : i));
  }
  return out;
}
}  // namespace detail

struct EqualityConstraints {
  std::vector<Variable> constraints;

  EqualityConstraints() = default;
  EqualityConstraints(std::initializer_list<EqualityConstraints> list) {
    for (const auto& e : list) {
      constraints.insert(constraints.end(), e.constraints.begin(),
                         e.constraints.end());
    }
  }
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& list) {
    for (const auto& e : list) {
      constraints.insert(constraints.end(), e.constraints.begin(),
                         e.constraints.end());
    }
  }
  template <typename L, typename R>
    requires detail::AnyLike<L> && detail::AnyLike<R>
  EqualityConstraints(L&& lhs, R&& rhs)
      : constraints{detail::MakeConstraints(lhs, rhs)} {}

  operator bool() const {  // NOLINT
    return std::all_of(constraints.begin(), constraints.end(),
                       [](const Variable& c) { return c.Value() == 0.0; });
  }
};

struct InequalityConstraints {
  std::vector<Variable> constraints;  // each must be >= 0

  InequalityConstraints() = default;
  InequalityConstraints(std::initializer_list<InequalityConstraints> list) {
    for (const auto& e : list) {
      constraints.insert(constraints.end(), e.constraints.begin(),
                         e.constraints.end());
    }
  }
  explicit InequalityConstraints(
      const std::vector<InequalityConstraints>& list) {
    for (const auto& e : list) {
      constraints.insert(constraints.end(), e.constraints.begin(),
                         e.constraints.end());
    }
  }
  template <typename L, typename R>
    requires detail::AnyLike<L> && detail::AnyLike<R>
  InequalityConstraints(L&& lhs, R&& rhs)
      : constraints{detail::MakeConstraints(lhs, rhs)} {}

  operator bool() const {  // NOLINT
    return std::all_of(constraints.begin(), constraints.end(),
                       [](const Variable& c) { return c.Value() >= 0.0; });
  }
};

template <typename L, typename R>
  requires detail::AnyLike<L> && detail::AnyLike<R> &&
           (detail::SleipnirType<L> || detail::SleipnirType<R>)
EqualityConstraints operator==(L&& lhs, R&& rhs) {
  return EqualityConstraints{lhs, rhs};
}
template <typename L, typename R>
  requires detail::AnyLike<L> && detail::AnyLike<R> &&
           (detail::SleipnirType<L> || detail::SleipnirType<R>)
InequalityConstraints operator>=(L&& lhs, R&& rhs) {
  return InequalityConstraints{lhs, rhs};
}
template <typename L, typename R>
  requires detail::AnyLike<L> && detail::AnyLike<R> &&
           (detail::SleipnirType<L> || detail::SleipnirType<R>)
InequalityConstraints operator>(L&& lhs, R&& rhs) {
  return lhs >= rhs;
}
template <typename L, typename R>
  requires detail::AnyLike<L> && detail::AnyLike<R> &&
           (detail::SleipnirType<L> || detail::SleipnirType<R>)
InequalityConstraints operator<=(L&& lhs, R&& rhs) {
  return rhs >= lhs;
}
template <typename L, typename R>
  requires detail::AnyLike<L> && detail::AnyLike<R> &&
           (detail::SleipnirType<L> || detail::SleipnirType<R>)
InequalityConstraints operator<(L&& lhs, R&& rhs) {
  return rhs >= lhs;
}

}  // namespace sleipnir
