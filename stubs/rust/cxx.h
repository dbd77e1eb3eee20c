// Stand-in for cxx's header: the few types the foreign-function layer uses.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace rust {
inline namespace cxxbridge1 {
template <class T> class Vec {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  Vec() noexcept = default;
  Vec(std::initializer_list<T> l) : v(l) {}
  Vec(const Vec&) = default;
  Vec(Vec&& o) noexcept : v(std::move(o.v)) { o.v.clear(); }
  Vec& operator=(Vec&& o) & noexcept { v = std::move(o.v); o.v.clear(); return *this; }
  Vec& operator=(const Vec&) & = default;
  std::size_t size() const noexcept { return v.size(); }
  bool empty() const noexcept { return v.empty(); }
  const T* data() const noexcept { return v.data(); }
  T* data() noexcept { return v.data(); }
  std::size_t capacity() const noexcept { return v.capacity(); }
  const T& operator[](std::size_t n) const noexcept { return v[n]; }
  const T& at(std::size_t n) const { if (n >= v.size()) throw std::out_of_range("rust::Vec index out of range"); return v[n]; }
  const T& front() const noexcept { return v.front(); }
  const T& back() const noexcept { return v.back(); }
  T& operator[](std::size_t n) noexcept { return v[n]; }
  T& at(std::size_t n) { if (n >= v.size()) throw std::out_of_range("rust::Vec index out of range"); return v[n]; }
  T& front() noexcept { return v.front(); }
  T& back() noexcept { return v.back(); }
  void reserve(std::size_t n) { v.reserve(n); }
  void push_back(const T& t) { v.push_back(t); }
  void push_back(T&& t) { v.push_back(std::move(t)); }
  template <class... A> void emplace_back(A&&... a) { v.push_back(T(std::forward<A>(a)...)); }
  void truncate(std::size_t n) { while (v.size() > n) v.pop_back(); }
  void clear() { v.clear(); }
  iterator begin() noexcept { return v.data(); }
  iterator end() noexcept { return v.data() + v.size(); }
  const_iterator begin() const noexcept { return v.data(); }
  const_iterator end() const noexcept { return v.data() + v.size(); }
  const_iterator cbegin() const noexcept { return begin(); }
  const_iterator cend() const noexcept { return end(); }
  void swap(Vec& o) noexcept { v.swap(o.v); }

 private:
  std::vector<T> v;
};
template <class S> class Fn;
template <class R, class... A> class Fn<R(A...)> {
 public:
  Fn(R (*f)(A...)) : f(f) {}
  R operator()(A... a) const { return f(std::move(a)...); }
  Fn operator*() const noexcept { return *this; }

 private:
  R (*f)(A...);
};
class Str {
 public:
  Str() = default;
  Str(const std::string& s) : s(s) {}
  Str(const char* c) : s(c) {}
  explicit operator std::string() const { return std::string{s}; }
  const char* data() const noexcept { return s.data(); }
  std::size_t size() const noexcept { return s.size(); }

 private:
  std::string_view s;
};
class String {
 public:
  String() = default;
  String(const std::string& s) : s(s) {}
  String(const char* c) : s(c) {}
  explicit operator std::string() const { return s; }
  const char* data() const noexcept { return s.data(); }
  std::size_t size() const noexcept { return s.size(); }

 private:
  std::string s;
};
class Error final : public std::exception {
 public:
  Error(std::string m) : m(std::move(m)) {}
  const char* what() const noexcept override { return m.c_str(); }

 private:
  std::string m;
};
}  // namespace cxxbridge1
}  // namespace rust
