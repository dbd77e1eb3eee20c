// C27: access, combinators and comparison of include/trajopt/util/expected.
#include "tracked.hpp"
#include <trajopt/util/expected>
// the object under test, in a given state
template <class T, class E>
static X<T, E> make(bool has, uint64_t v) {
  if (!has) return X<T, E>(trajopt::unexpect, v);
  if constexpr (std::is_void_v<T>) return X<T, E>();
  else return X<T, E>(trajopt::in_place, v);
}
enum Cat { LREF, CREF, RREF, CRREF };
// calls f on x as an lvalue, const lvalue, rvalue or const rvalue; false: not available
template <class Y, class F>
static bool as(Cat c, Y& x, F f) {
  const Y& k = x;
  switch (c) {
    case LREF: if constexpr (requires { f(x); }) { f(x); return true; } break;
    case CREF: if constexpr (requires { f(k); }) { f(k); return true; } break;
    case RREF: if constexpr (requires { f(std::move(x)); }) { f(std::move(x)); return true; } break;
    case CRREF: if constexpr (requires { f(std::move(k)); }) { f(std::move(k)); return true; } break;
  }
  return false;
}
template <class A, class B> concept same = std::is_same_v<std::remove_cvref_t<A>, B>;
template <class T, class E>
static void kept(Cat c, const X<T, E>& x, bool has, uint64_t v) {
  sym_check(x.has_value() == has, "source_state");
  if (c != RREF && (!has || !std::is_void_v<T>)) sym_check(payload<T, E>(x) == v, "source_payload");
  sym_check(!g_bad, "objects_used_while_alive");
}
template <class Z, class A, class B>
static void is(const Z& z, bool has, uint64_t v) {
  sym_check(z.has_value() == has, "result_state");
  if (z.has_value() == has && (!has || !std::is_void_v<A>)) sym_check(payload<A, B>(z) == v, "result_payload");
}
template <class E> static uint64_t copyOf(const E& e) { return e.get(); }

// value(), *, ->, error(), value_or()
template <class T, class E>
static void access() {
  start();
  bool has = sym_choice("has", 0, 1);
  uint64_t v = sym_u64("v"), d = sym_u64("default");
  auto c = (Cat)sym_choice("category", 0, 3);
  {
    auto x = make<T, E>(has, v);
    bool ok = true, caught = false;
    uint64_t seen = 0;
    switch (sym_choice("access", 0, 4)) {
      case 0:
        if constexpr (!std::is_void_v<T>) {
          try {
            ok = as(c, x, [&]<class Y>(Y&& y) requires(std::is_copy_constructible_v<E> || (!std::is_const_v<std::remove_reference_t<Y>> && std::is_rvalue_reference_v<Y&&>)) {
              same<T> auto&& r = std::forward<Y>(y).value();
              static_assert(std::is_lvalue_reference_v<decltype(r)> == std::is_lvalue_reference_v<Y>);
              seen = r.get();
            });
          } catch (const trajopt::bad_expected_access<E>& e) {
            caught = true;
            sym_check(e.error().get() == v, "exception_carries_error");
          }
          if (!ok) sym_end();
          sym_check(caught == !has, "throws_exactly_without_value");
          if (has) sym_check(seen == v, "value");
        } else {
          sym_end();
        }
        break;
      case 1:
        if constexpr (!std::is_void_v<T>) {
          if (!has) sym_end();
          ok = as(c, x, [&](auto&& y) { seen = (*std::forward<decltype(y)>(y)).get(); });
          sym_check(ok && seen == v, "dereference");
        } else {
          sym_end();
        }
        break;
      case 2:
        if constexpr (!std::is_void_v<T>) {
          if (!has) sym_end();
          ok = as(c, x, [&](auto&& y) { seen = y->get(); });
          sym_check(ok && seen == v, "arrow");
        } else {
          sym_end();
        }
        break;
      case 3:
        if (has) sym_end();
        ok = as(c, x, [&](auto&& y) { seen = std::forward<decltype(y)>(y).error().get(); });
        sym_check(ok && seen == v, "error");
        break;
      case 4:
        if constexpr (!std::is_void_v<T>) {
          ok = as(c, x, [&]<class Y>(Y&& y) requires(std::is_copy_constructible_v<T> || (!std::is_const_v<std::remove_reference_t<Y>> && std::is_rvalue_reference_v<Y&&>)) {
            seen = std::forward<Y>(y).value_or(Src{d}).get();
          });
          if (!ok) sym_end();
          sym_check(seen == (has ? v : d), "value_or");
        } else {
          sym_end();
        }
        break;
    }
    kept<T, E>(c, x, has, v);
  }
  sym_check(!g_bad && g_liveCount == 0, "destroyed_once");
  sym_reach("end");
}
// What the functions saw.
static int g_calls;
static uint64_t g_arg, g_out;
static bool g_outHas;
using Out = Tr<SAFE, 2>;
template <class T, class E>
static void combine() {
  start();
  g_calls = 0;
  bool has = sym_choice("has", 0, 1);
  uint64_t v = sym_u64("v");
  g_out = sym_u64("result");
  g_outHas = sym_choice("result_has", 0, 1);
  auto c = (Cat)sym_choice("category", 0, 3);
  {
    auto x = make<T, E>(has, v);
    bool onValue = true, ok = true;
#define AS(...) as(c, x, [&]<class Y>(Y&& y) requires((!std::is_const_v<std::remove_reference_t<Y>> && std::is_rvalue_reference_v<Y&&>) || ((std::is_void_v<T> || std::is_copy_constructible_v<T>) && std::is_copy_constructible_v<E>)) { __VA_ARGS__; })
    auto saw = [](auto&&... a) { g_calls++; ((g_arg = a.get()), ...); };
    switch (sym_choice("combinator", 0, 8)) {
      case 0:  // map to another type
        if (sym_choice("name", 0, 1)) ok = AS(auto z = std::forward<Y>(y).transform([&](auto&&... a) { saw(a...); return Out(g_out); }); is<decltype(z), Out, E>(z, has, has ? g_out : v));
        else ok = AS(auto z = std::forward<Y>(y).map([&](auto&&... a) { saw(a...); return Out(g_out); }); is<decltype(z), Out, E>(z, has, has ? g_out : v));
        break;
      case 1:  // map to nothing
        if (sym_choice("name", 0, 1)) ok = AS(auto z = std::forward<Y>(y).transform([&](auto&&... a) { saw(a...); }); is<decltype(z), void, E>(z, has, v));
        else ok = AS(auto z = std::forward<Y>(y).map([&](auto&&... a) { saw(a...); }); is<decltype(z), void, E>(z, has, v));
        break;
      case 2:  // chain
        ok = AS(auto z = std::forward<Y>(y).and_then([&](auto&&... a) { saw(a...); return make<Out, E>(g_outHas, g_out); }); is<decltype(z), Out, E>(z, has && g_outHas, has ? g_out : v));
        break;
      case 3:  // chain to a result without payload
        ok = AS(auto z = std::forward<Y>(y).and_then([&](auto&&... a) { saw(a...); return make<void, E>(g_outHas, g_out); }); is<decltype(z), void, E>(z, has && g_outHas, has ? g_out : v));
        break;
      case 4:  // another error
        onValue = false;
        if (sym_choice("name", 0, 1)) ok = AS(auto z = std::forward<Y>(y).transform_error([&](auto&& a) { saw(a); return Out(g_out); }); is<decltype(z), T, Out>(z, has, has ? v : g_out));
        else ok = AS(auto z = std::forward<Y>(y).map_error([&](auto&& a) { saw(a); return Out(g_out); }); is<decltype(z), T, Out>(z, has, has ? v : g_out));
        break;
      case 5: {  // no error any more but its place
        onValue = false;
        auto look = [&](auto&& z) {
          sym_check(z.has_value() == has, "result_state");
          if constexpr (!std::is_void_v<T>) if (has && z.has_value()) sym_check((*z).get() == v, "result_payload");
        };
        if (sym_choice("name", 0, 1)) ok = AS(look(std::forward<Y>(y).transform_error([&](auto&& a) { saw(a); })));
        else ok = AS(look(std::forward<Y>(y).map_error([&](auto&& a) { saw(a); })));
        break;
      }
      case 6:  // an alternative
        onValue = false;
        ok = AS(auto z = std::forward<Y>(y).or_else([&](auto&& a) { saw(a); return make<T, E>(g_outHas, g_out); }); is<decltype(z), T, E>(z, has || g_outHas, has ? v : g_out));
        break;
      case 7:  // only a look at the error
        onValue = false;
        ok = AS(auto z = std::forward<Y>(y).or_else([&](auto&& a) { saw(a); }); is<decltype(z), T, E>(z, has, v));
        break;
      case 8:  // a member of the value
        if constexpr (!std::is_void_v<T>) {
          ok = AS(auto z = std::forward<Y>(y).map(&T::get); g_calls += has; g_arg = v; sym_check(z.has_value() == has, "result_state"); if (z.has_value() == has) sym_check(has ? *z == v : z.error().get() == v, "result_payload"));
        } else {
          sym_end();
        }
        break;
    }
    if (!ok) sym_end();
    sym_check(g_calls == (has == onValue ? 1 : 0), "called_exactly_when_due");
    if (g_calls && (!onValue || !std::is_void_v<T>)) sym_check(g_arg == v, "called_with_payload");
    kept<T, E>(c, x, has, v);
  }
  sym_check(!g_bad && g_liveCount == 0, "destroyed_once");
  sym_reach("end");
}
// comparisons, between all states
template <class T, class E>
static void compare() {
  start();
  bool ha = sym_choice("a", 0, 1), hb = sym_choice("b", 0, 1);
  uint64_t va = sym_u64("a"), vb = sym_u64("b");
  auto a = make<T, E>(ha, va);
  bool eq, ne;
  bool want;
  switch (sym_choice("with", 0, 3)) {
    case 0: {
      auto b = make<T, E>(hb, vb);
      eq = a == b, ne = a != b;
      want = ha == hb && ((ha && std::is_void_v<T>) || va == vb);
      kept<T, E>(LREF, b, hb, vb);
      break;
    }
    case 1:
      if constexpr (std::is_void_v<T>) { sym_end(); return; }
      else {
        const T b(vb);
        eq = a == b, ne = a != b;
        want = ha && va == vb;
        sym_check(b.get() == vb, "source_kept");
        if (sym_choice("swapped", 0, 1)) eq = b == a, ne = b != a;
        break;
      }
    case 2: {
      const unexpected<E> b(vb);
      eq = a == b, ne = a != b;
      if (sym_choice("swapped", 0, 1)) eq = b == a, ne = b != a;
      want = !ha && va == vb;
      sym_check(b.value().get() == vb, "source_kept");
      break;
    }
    default: {
      const unexpected<E> b(vb), e(va);
      eq = e == b, ne = e != b;
      want = va == vb;
      break;
    }
  }
  sym_check(sym_iff(eq, want), "equal");
  sym_check(sym_iff(ne, !want), "not_equal");
  kept<T, E>(LREF, a, ha, va);
  sym_reach("end");
}
#define CASES(name, T)                                                                      \
  SYM_CASE(c27_access_##name) { withError<T>([]<class U, class E>() { access<U, E>(); }); }  \
  SYM_CASE(c27_combine_##name) { withError<T>([]<class U, class E>() { combine<U, E>(); }); } \
  SYM_CASE(c27_compare_##name) { withError<T>([]<class U, class E>() { compare<U, E>(); }); }
CASES(safe, Safe)
CASES(string, String)
CASES(copyonly, CopyOnly)
CASES(moveonly, MoveOnly)
CASES(pod, Pod<0>)
CASES(void, void)
