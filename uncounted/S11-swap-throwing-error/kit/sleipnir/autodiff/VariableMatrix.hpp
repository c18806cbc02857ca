// Simulated Sleipnir: dense matrix of Variables.
#pragma once

#include <cassert>
#include <initializer_list>
#include <vector>

#include "sleipnir/autodiff/Variable.hpp"

namespace sleipnir {

class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int rows) : VariableMatrix{rows, 1} {}
  VariableMatrix(int rows, int cols) : m_rows{rows}, m_cols{cols} {
    for (int i = 0; i < rows * cols; ++i) m_storage.emplace_back();
  }
  VariableMatrix(
      std::initializer_list<std::initializer_list<Variable>> list) {
    m_rows = static_cast<int>(list.size());
    for (const auto& row : list) {
      m_cols = static_cast<int>(row.size());
      for (const auto& e : row) m_storage.push_back(e);
    }
  }
  VariableMatrix(const std::vector<std::vector<double>>& list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    for (const auto& row : list) {
      m_cols = static_cast<int>(row.size());
      for (double e : row) m_storage.emplace_back(e);
    }
  }
  VariableMatrix(const std::vector<std::vector<Variable>>& list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    for (const auto& row : list) {
      m_cols = static_cast<int>(row.size());
      for (const auto& e : row) m_storage.push_back(e);
    }
  }
  VariableMatrix(const Variable& v) : m_storage{v}, m_rows{1}, m_cols{1} {}  // NOLINT

  int Rows() const { return m_rows; }
  int Cols() const { return m_cols; }
  Variable& operator()(int r, int c) { return m_storage[r * m_cols + c]; }
  const Variable& operator()(int r, int c) const {
    return m_storage[r * m_cols + c];
  }
  Variable& operator()(int i) { return m_storage[i]; }
  const Variable& operator()(int i) const { return m_storage[i]; }
  double Value(int r, int c) const { return (*this)(r, c).Value(); }
  double Value(int i) const { return m_storage[i].Value(); }
  auto begin() { return m_storage.begin(); }
  auto end() { return m_storage.end(); }
  auto begin() const { return m_storage.begin(); }
  auto end() const { return m_storage.end(); }

  VariableMatrix T() const {
    VariableMatrix r{m_cols, m_rows};
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) r(j, i) = (*this)(i, j);
    return r;
  }
  friend VariableMatrix operator+(const VariableMatrix& a,
                                  const VariableMatrix& b) {
    VariableMatrix r = a;
    for (size_t i = 0; i < r.m_storage.size(); ++i)
      r.m_storage[i] = a.m_storage[i] + b.m_storage[i];
    return r;
  }
  friend VariableMatrix operator-(const VariableMatrix& a,
                                  const VariableMatrix& b) {
    VariableMatrix r = a;
    for (size_t i = 0; i < r.m_storage.size(); ++i)
      r.m_storage[i] = a.m_storage[i] - b.m_storage[i];
    return r;
  }
  friend VariableMatrix operator-(const VariableMatrix& a) {
    VariableMatrix r = a;
    for (auto& e : r.m_storage) e = -e;
    return r;
  }
  friend VariableMatrix operator*(const VariableMatrix& a,
                                  const VariableMatrix& b) {
    if (a.m_rows == 1 && a.m_cols == 1) {
      VariableMatrix r = b;
      for (auto& e : r.m_storage) e = a.m_storage[0] * e;
      return r;
    }
    if (b.m_rows == 1 && b.m_cols == 1) {
      VariableMatrix r = a;
      for (auto& e : r.m_storage) e = e * b.m_storage[0];
      return r;
    }
    VariableMatrix r{a.m_rows, b.m_cols};
    for (int i = 0; i < a.m_rows; ++i)
      for (int j = 0; j < b.m_cols; ++j) {
        Variable s{0.0};
        for (int k = 0; k < a.m_cols; ++k) s += a(i, k) * b(k, j);
        r(i, j) = s;
      }
    return r;
  }
  friend VariableMatrix operator/(const VariableMatrix& a, const Variable& b) {
    VariableMatrix r = a;
    for (auto& e : r.m_storage) e = e / b;
    return r;
  }

 private:
  std::vector<Variable> m_storage;
  int m_rows = 0;
  int m_cols = 0;
};

}  // namespace sleipnir
