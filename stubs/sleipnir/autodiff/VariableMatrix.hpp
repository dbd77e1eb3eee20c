#pragma once
#include "Variable.hpp"
namespace sleipnir {
class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int rows, int cols = 1) : m_rows{rows}, m_cols{cols}, m_d(rows * cols) {}
  VariableMatrix(const Variable& v) : m_rows{1}, m_cols{1}, m_d{v} {}  // NOLINT
  VariableMatrix(std::initializer_list<std::initializer_list<Variable>> list) {
    m_rows = static_cast<int>(list.size());
    m_cols = m_rows ? static_cast<int>(list.begin()->size()) : 0;
    m_d.reserve(m_rows * m_cols);
    for (auto& row : list)
      for (auto& e : row) m_d.push_back(e);
  }
  VariableMatrix(const std::vector<std::vector<Variable>>& list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    m_cols = m_rows ? static_cast<int>(list[0].size()) : 0;
    for (auto& row : list)
      for (auto& e : row) m_d.push_back(e);
  }
  int Rows() const { return m_rows; }
  int Cols() const { return m_cols; }
  Variable& operator()(int r, int c) { return m_d[r * m_cols + c]; }
  const Variable& operator()(int r, int c) const { return m_d[r * m_cols + c]; }
  Variable& operator()(int r) { return m_d[r]; }
  const Variable& operator()(int r) const { return m_d[r]; }
  double Value(int r, int c) const { return m_d[r * m_cols + c].Value(); }
  double Value(int r) const { return m_d[r].Value(); }
  auto begin() { return m_d.begin(); }
  auto end() { return m_d.end(); }
  auto begin() const { return m_d.begin(); }
  auto end() const { return m_d.end(); }
  size_t size() const { return m_d.size(); }
  VariableMatrix T() const {
    VariableMatrix r{m_cols, m_rows};
    for (int i = 0; i < m_rows; i++)
      for (int j = 0; j < m_cols; j++) r(j, i) = (*this)(i, j);
    return r;
  }
  friend VariableMatrix operator+(const VariableMatrix& a, const VariableMatrix& b) {
    VariableMatrix r{a.m_rows, a.m_cols};
    for (size_t i = 0; i < a.m_d.size(); i++) r.m_d[i] = a.m_d[i] + b.m_d[i];
    return r;
  }
  friend VariableMatrix operator-(const VariableMatrix& a, const VariableMatrix& b) {
    VariableMatrix r{a.m_rows, a.m_cols};
    for (size_t i = 0; i < a.m_d.size(); i++) r.m_d[i] = a.m_d[i] - b.m_d[i];
    return r;
  }
  friend VariableMatrix operator-(const VariableMatrix& a) {
    VariableMatrix r{a.m_rows, a.m_cols};
    for (size_t i = 0; i < a.m_d.size(); i++) r.m_d[i] = -a.m_d[i];
    return r;
  }
  friend VariableMatrix operator*(const VariableMatrix& a, const VariableMatrix& b) {
    if (a.m_rows == 1 && a.m_cols == 1) return b.scaled(a.m_d[0]);
    if (b.m_rows == 1 && b.m_cols == 1) return a.scaled(b.m_d[0]);
    VariableMatrix r{a.m_rows, b.m_cols};
    for (int i = 0; i < a.m_rows; i++)
      for (int j = 0; j < b.m_cols; j++) {
        Variable s = a(i, 0) * b(0, j);
        for (int k = 1; k < a.m_cols; k++) s += a(i, k) * b(k, j);
        r(i, j) = s;
      }
    return r;
  }
  VariableMatrix scaled(const Variable& k) const {
    VariableMatrix r{m_rows, m_cols};
    for (size_t i = 0; i < m_d.size(); i++) r.m_d[i] = m_d[i] * k;
    return r;
  }
  int m_rows = 0, m_cols = 0;
  std::vector<Variable> m_d;
};
template <typename T>
concept MatrixLike = std::same_as<std::remove_cvref_t<T>, VariableMatrix>;
}  // namespace sleipnir
#include "sleipnir/optimization/Constraints.hpp"
