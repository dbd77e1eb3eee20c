#pragma once
#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"
namespace sleipnir {
// each entry e means e == 0
struct EqualityConstraints {
  std::vector<Variable> constraints;
  EqualityConstraints() = default;
  EqualityConstraints(std::initializer_list<EqualityConstraints> l) {
    for (auto& c : l)
      for (auto& e : c.constraints) constraints.push_back(e);
  }
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& l) {
    for (auto& c : l)
      for (auto& e : c.constraints) constraints.push_back(e);
  }
  explicit EqualityConstraints(std::vector<Variable>&& v, int) : constraints{std::move(v)} {}
  explicit operator bool() const {
    bool ok = true;
    for (auto& c : constraints) ok = ok && c.Value() == 0.0;
    return ok;
  }
};
// each entry e means e >= 0
struct InequalityConstraints {
  std::vector<Variable> constraints;
  InequalityConstraints() = default;
  InequalityConstraints(std::initializer_list<InequalityConstraints> l) {
    for (auto& c : l)
      for (auto& e : c.constraints) constraints.push_back(e);
  }
  explicit InequalityConstraints(const std::vector<InequalityConstraints>& l) {
    for (auto& c : l)
      for (auto& e : c.constraints) constraints.push_back(e);
  }
  explicit InequalityConstraints(std::vector<Variable>&& v, int) : constraints{std::move(v)} {}
  explicit operator bool() const {
    bool ok = true;
    for (auto& c : constraints) ok = ok && c.Value() >= 0.0;
    return ok;
  }
};
namespace stub {
template <class L, class R>
std::vector<Variable> diff(const L& l, const R& r) {
  std::vector<Variable> out;
  if constexpr (ScalarLike<L> && ScalarLike<R>) {
    out.push_back(Variable(l) - Variable(r));
  } else if constexpr (ScalarLike<L>) {
    for (auto& e : r) out.push_back(Variable(l) - e);
  } else if constexpr (ScalarLike<R>) {
    for (auto& e : l) out.push_back(e - Variable(r));
  } else {
    for (size_t i = 0; i < l.size(); i++) out.push_back(l.m_d[i] - r.m_d[i]);
  }
  return out;
}
template <class L, class R>
concept Comparable = (ScalarLike<L> || MatrixLike<L>) && (ScalarLike<R> || MatrixLike<R>) &&
                     !(std::is_arithmetic_v<std::remove_cvref_t<L>> && std::is_arithmetic_v<std::remove_cvref_t<R>>);
}  // namespace stub
template <class L, class R>
  requires stub::Comparable<L, R>
EqualityConstraints operator==(L&& l, R&& r) {
  return EqualityConstraints{stub::diff<std::remove_cvref_t<L>, std::remove_cvref_t<R>>(l, r), 0};
}
template <class L, class R>
  requires stub::Comparable<L, R>
InequalityConstraints operator>=(L&& l, R&& r) {
  return InequalityConstraints{stub::diff<std::remove_cvref_t<L>, std::remove_cvref_t<R>>(l, r), 0};
}
template <class L, class R>
  requires stub::Comparable<L, R>
InequalityConstraints operator>(L&& l, R&& r) { return l >= r; }
template <class L, class R>
  requires stub::Comparable<L, R>
InequalityConstraints operator<=(L&& l, R&& r) { return r >= l; }
template <class L, class R>
  requires stub::Comparable<L, R>
InequalityConstraints operator<(L&& l, R&& r) { return r >= l; }
}  // namespace sleipnir
