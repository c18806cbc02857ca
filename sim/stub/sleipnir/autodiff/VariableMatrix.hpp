// Simulated Sleipnir: dense matrix of Variables.
#pragma once

#include <cassert>
#include <initializer_list>
#include <vector>

#include "sleipnir/autodiff/Variable.hpp"

#include "sleipnir/autodiff/VariableBlock.hpp"

namespace sleipnir {

class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int rows) : VariableMatrix{rows, 1} {}
  VariableMatrix(int rows, int cols) : m_rows{rows}, m_cols{cols} {
    for (int i = 0; i < rows * cols; ++i) m_storage.emplace_back();
  }
  VariableMatrix(
      std::initializer_list<std::initializer_list<Variable>> list) {
    m_rows = static_cast<int>(list.size());
    for (const auto& row : list) {
      m_cols = static_cast<int>(row.size());
      for (const auto& e : row) m_storage.push_back(e);
    }
  }
  VariableMatrix(const std::vector<std::vector<double>>& list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    for (const auto& row : list) {
      m_cols = static_cast<int>(row.size());
      for (double e : row) m_storage.emplace_back(e);
    }
  }
  VariableMatrix(const std::vector<std::vector<Variable>>& list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    for (const auto& row : list) {
      m_cols = static_cast<int>(row.size());
      for (const auto& e : row) m_storage.push_back(e);
    }
  }
  VariableMatrix(const Variable& v) : m_storage{v}, m_rows{1}, m_cols{1} {}  // NOLINT

  VariableMatrix(const VariableBlock<VariableMatrix>& b);        // NOLINT
  VariableMatrix(const VariableBlock<const VariableMatrix>& b);  // NOLINT
  explicit VariableMatrix(std::span<const Variable> values)
      : VariableMatrix{values, static_cast<int>(values.size()), 1} {}
  VariableMatrix(std::span<const Variable> values, int rows, int cols)
      : m_rows{rows}, m_cols{cols} {
    for (const auto& v : values) m_storage.push_back(v);
  }
  VariableMatrix& operator=(double value) {
    for (auto& e : m_storage) e = value;
    return *this;
  }

  static VariableMatrix Zero(int rows, int cols) { return VariableMatrix{rows, cols}; }
  static VariableMatrix Ones(int rows, int cols) {
    VariableMatrix r{rows, cols};
    for (auto& e : r.m_storage) e = 1.0;
    return r;
  }

  VariableBlock<VariableMatrix> Block(int r, int c, int rows, int cols) {
    return {*this, r, c, rows, cols};
  }
  VariableBlock<const VariableMatrix> Block(int r, int c, int rows, int cols) const {
    return {*this, r, c, rows, cols};
  }
  VariableBlock<VariableMatrix> Row(int r) { return {*this, r, 0, 1, m_cols}; }
  VariableBlock<const VariableMatrix> Row(int r) const { return {*this, r, 0, 1, m_cols}; }
  VariableBlock<VariableMatrix> Col(int c) { return {*this, 0, c, m_rows, 1}; }
  VariableBlock<const VariableMatrix> Col(int c) const { return {*this, 0, c, m_rows, 1}; }
  VariableBlock<VariableMatrix> Segment(int offset, int length) {
    return {*this, offset, 0, length, 1};
  }
  VariableBlock<const VariableMatrix> Segment(int offset, int length) const {
    return {*this, offset, 0, length, 1};
  }
  VariableMatrix CwiseTransform(
      std::function<Variable(const Variable& x)> unaryOp) const {
    VariableMatrix r = *this;
    for (auto& e : r.m_storage) e = unaryOp(e);
    return r;
  }
  VariableMatrix& operator+=(const VariableMatrix& o);
  VariableMatrix& operator-=(const VariableMatrix& o);
  VariableMatrix& operator*=(const VariableMatrix& o);
  VariableMatrix& operator/=(const Variable& o);
  void SetValue(int r, int c, double v) { (*this)(r, c).SetValue(v); }

  int Rows() const { return m_rows; }
  int Cols() const { return m_cols; }
  Variable& operator()(int r, int c) { return m_storage[r * m_cols + c]; }
  const Variable& operator()(int r, int c) const {
    return m_storage[r * m_cols + c];
  }
  Variable& operator()(int i) { return m_storage[i]; }
  const Variable& operator()(int i) const { return m_storage[i]; }
  double Value(int r, int c) const { return (*this)(r, c).Value(); }
  double Value(int i) const { return m_storage[i].Value(); }
  auto cbegin() const { return m_storage.begin(); }
  auto cend() const { return m_storage.end(); }
  size_t size() const { return m_storage.size(); }
  auto begin() { return m_storage.begin(); }
  auto end() { return m_storage.end(); }
  auto begin() const { return m_storage.begin(); }
  auto end() const { return m_storage.end(); }

  VariableMatrix T() const {
    VariableMatrix r{m_cols, m_rows};
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) r(j, i) = (*this)(i, j);
    return r;
  }
  friend VariableMatrix operator+(const VariableMatrix& a,
                                  const VariableMatrix& b) {
    VariableMatrix r = a;
    for (size_t i = 0; i < r.m_storage.size(); ++i)
      r.m_storage[i] = a.m_storage[i] + b.m_storage[i];
    return r;
  }
  friend VariableMatrix operator-(const VariableMatrix& a,
                                  const VariableMatrix& b) {
    VariableMatrix r = a;
    for (size_t i = 0; i < r.m_storage.size(); ++i)
      r.m_storage[i] = a.m_storage[i] - b.m_storage[i];
    return r;
  }
  friend VariableMatrix operator-(const VariableMatrix& a) {
    VariableMatrix r = a;
    for (auto& e : r.m_storage) e = -e;
    return r;
  }
  friend VariableMatrix operator*(const VariableMatrix& a,
                                  const VariableMatrix& b) {
    if (a.m_rows == 1 && a.m_cols == 1) {
      VariableMatrix r = b;
      for (auto& e : r.m_storage) e = a.m_storage[0] * e;
      return r;
    }
    if (b.m_rows == 1 && b.m_cols == 1) {
      VariableMatrix r = a;
      for (auto& e : r.m_storage) e = e * b.m_storage[0];
      return r;
    }
    VariableMatrix r{a.m_rows, b.m_cols};
    for (int i = 0; i < a.m_rows; ++i)
      for (int j = 0; j < b.m_cols; ++j) {
        Variable s{0.0};
        for (int k = 0; k < a.m_cols; ++k) s += a(i, k) * b(k, j);
        r(i, j) = s;
      }
    return r;
  }
  friend VariableMatrix operator*(const VariableMatrix& a, double b) {
    return a * VariableMatrix{Variable{b}};
  }
  friend VariableMatrix operator*(double a, const VariableMatrix& b) {
    return VariableMatrix{Variable{a}} * b;
  }
  friend VariableMatrix operator/(const VariableMatrix& a, const Variable& b) {
    VariableMatrix r = a;
    for (auto& e : r.m_storage) e = e / b;
    return r;
  }

 private:
  std::vector<Variable> m_storage;
  int m_rows = 0;
  int m_cols = 0;
};

inline VariableMatrix& VariableMatrix::operator+=(const VariableMatrix& o) {
  return *this = *this + o;
}
inline VariableMatrix& VariableMatrix::operator-=(const VariableMatrix& o) {
  return *this = *this - o;
}
inline VariableMatrix& VariableMatrix::operator*=(const VariableMatrix& o) {
  return *this = *this * o;
}
inline VariableMatrix& VariableMatrix::operator/=(const Variable& o) {
  return *this = *this / o;
}
inline VariableMatrix::VariableMatrix(const VariableBlock<VariableMatrix>& b)
    : VariableMatrix{b.Rows(), b.Cols()} {
  for (int i = 0; i < m_rows; ++i)
    for (int j = 0; j < m_cols; ++j) (*this)(i, j) = b(i, j);
}
inline VariableMatrix::VariableMatrix(const VariableBlock<const VariableMatrix>& b)
    : VariableMatrix{b.Rows(), b.Cols()} {
  for (int i = 0; i < m_rows; ++i)
    for (int j = 0; j < m_cols; ++j) (*this)(i, j) = b(i, j);
}

}  // namespace sleipnir
