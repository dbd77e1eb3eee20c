// Payload types for C26 and C27 that record where and when they live.
#pragma once
#include "sym.hpp"
#include <cstddef>
#include <initializer_list>
#include <new>
#include <type_traits>
#include <utility>
#include <trajopt/util/expected>
using trajopt::expected;
using trajopt::unexpected;
// ---- objects that record where and when they live -------------------------
static const void* g_live[64];
static size_t g_liveCount;
static bool g_bad;  // an object was used, built or destroyed at the wrong time
static size_t find(const void* p) {
  size_t k = 0;
  while (k < g_liveCount && g_live[k] != p) k++;
  return k;
}
static void born(const void* p) {
  if (find(p) < g_liveCount) g_bad = true;  // over an object still alive
  else g_live[g_liveCount++] = p;
}
static void died(const void* p) {
  size_t k = find(p);
  if (k == g_liveCount) { g_bad = true; return; }
  g_live[k] = g_live[--g_liveCount];
}
static void used(const void* p) {
  if (find(p) == g_liveCount) g_bad = true;
}
// ---- a copy that throws: the n-th one that can, n arbitrary ----------------
struct Thrown {};
static bool g_armed;
static uint64_t g_fuse, g_count;
static void maybeThrow() {
  if (g_armed && g_count++ == g_fuse) throw Thrown{};
}
struct Src { uint64_t v; };      // converts to a payload
struct Exp { uint64_t v; };      // converts explicitly
enum Kind { SAFE, STRING, COPY, MOVE };  // never throws; copy may throw; copies only, may throw; moves only
template <Kind K, int Tag>
struct Tr {
  static constexpr bool safeCopy = K == SAFE, safeMove = K != COPY;
  uint64_t v;
  Tr() noexcept(safeCopy) : v(7) { if (!safeCopy) maybeThrow(); born(this); }
  explicit Tr(uint64_t x) noexcept(safeCopy) : v(x) { if (!safeCopy) maybeThrow(); born(this); }
  Tr(Src s) noexcept(safeCopy) : v(s.v) { if (!safeCopy) maybeThrow(); born(this); }
  explicit Tr(Exp s) noexcept(safeCopy) : v(s.v) { if (!safeCopy) maybeThrow(); born(this); }
  Tr(std::initializer_list<uint64_t> l, uint64_t x) noexcept(safeCopy) : v(*l.begin() + x) { if (!safeCopy) maybeThrow(); born(this); }
  Tr(const Tr& o) noexcept(safeCopy) requires(K != MOVE) : v(o.v) { used(&o); if (!safeCopy) maybeThrow(); born(this); }
  Tr(Tr&& o) noexcept requires(K != COPY) : v(o.v) { used(&o); o.v = 0xdead; born(this); }
  Tr& operator=(const Tr& o) noexcept(safeCopy) requires(K != MOVE) {
    used(this); used(&o);
    if (!safeCopy) maybeThrow();
    v = o.v;
    return *this;
  }
  Tr& operator=(Tr&& o) noexcept requires(K != COPY) {
    used(this); used(&o);
    uint64_t x = o.v;
    o.v = 0xdead;
    v = x;
    return *this;
  }
  Tr& operator=(Src s) noexcept(safeCopy) { used(this); if (!safeCopy) maybeThrow(); v = s.v; return *this; }
  ~Tr() { died(this); v = 0xd1ed; }
  uint64_t get() const { used(this); return v; }
  bool operator==(const Tr& o) const { return get() == o.get(); }
  bool operator!=(const Tr& o) const { return get() != o.get(); }
};
// nothing to destroy
template <int Tag>
struct Pod {
  uint64_t v = 7;
  Pod() = default;
  constexpr explicit Pod(uint64_t x) noexcept : v(x) {}
  constexpr Pod(Src s) noexcept : v(s.v) {}
  constexpr explicit Pod(Exp s) noexcept : v(s.v) {}
  Pod(std::initializer_list<uint64_t> l, uint64_t x) noexcept : v(*l.begin() + x) {}
  uint64_t get() const { return v; }
  bool operator==(const Pod& o) const { return v == o.v; }
  bool operator!=(const Pod& o) const { return v != o.v; }
};
template <class X> constexpr bool tracked = requires { X::safeCopy; };
static void start() { g_liveCount = 0; g_bad = false; g_armed = false; g_count = 0; }
template <class X, class T, class E> static size_t heldBy(const X& x) {
  if constexpr (!std::is_void_v<T>) if (x.has_value()) return tracked<T>;
  return x.has_value() ? 0 : tracked<E>;
}
template <class T, class E> using X = expected<T, E>;
template <class T, class E>
static uint64_t payload(const X<T, E>& x) {
  if constexpr (std::is_void_v<T>) return x.has_value() ? 0 : x.error().get();
  else return x.has_value() ? (*x).get() : x.error().get();
}
template <class T, class F>
static void withError(F f) {
  switch (sym_choice("error_type", 0, 4)) {
    case 0: f.template operator()<T, Tr<SAFE, 1>>(); break;
    case 1: f.template operator()<T, Tr<STRING, 1>>(); break;
    case 2: f.template operator()<T, Tr<COPY, 1>>(); break;
    case 3: f.template operator()<T, Tr<MOVE, 1>>(); break;
    case 4: f.template operator()<T, Pod<1>>(); break;
  }
}
using Safe = Tr<SAFE, 0>;
using String = Tr<STRING, 0>;
using CopyOnly = Tr<COPY, 0>;
using MoveOnly = Tr<MOVE, 0>;
