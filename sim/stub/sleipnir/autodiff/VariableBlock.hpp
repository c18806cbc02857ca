// Simulated Sleipnir: a view of part of a matrix.
#pragma once

#include <type_traits>

#include "sleipnir/autodiff/Variable.hpp"

namespace sleipnir {

template <typename Mat>
class VariableBlock {
 public:
  VariableBlock(Mat& mat, int r, int c, int rows, int cols)
      : m_mat{&mat}, m_r{r}, m_c{c}, m_rows{rows}, m_cols{cols} {}
  VariableBlock(const VariableBlock&) = default;

  VariableBlock& operator=(const VariableBlock& o) { return assign(o); }
  VariableBlock& operator=(double v) {
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) (*this)(i, j) = v;
    return *this;
  }
  VariableBlock& operator=(const Variable& v) {
    (*this)(0, 0) = v;
    return *this;
  }
  template <typename M>
    requires(!std::is_arithmetic_v<M>)
  VariableBlock& operator=(const M& m) { return assign(m); }

  int Rows() const { return m_rows; }
  int Cols() const { return m_cols; }
  decltype(auto) operator()(int r, int c) const {
    return (*m_mat)(m_r + r, m_c + c);
  }
  decltype(auto) operator()(int i) const {
    return (*this)(i / m_cols, i % m_cols);
  }
  double Value(int r, int c) const { return (*this)(r, c).Value(); }
  double Value(int i) const { return (*this)(i).Value(); }
  void SetValue(double v) { (*this)(0, 0).SetValue(v); }
  auto T() const { return std::remove_const_t<Mat>{*this}.T(); }

 private:
  template <typename M>
  VariableBlock& assign(const M& m) {
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) (*this)(i, j) = m(i, j);
    return *this;
  }
  Mat* m_mat;
  int m_r, m_c, m_rows, m_cols;
};

}  // namespace sleipnir
