// C26: the states and objects of the result type include/trajopt/util/expected.
#include "tracked.hpp"
// ---- one history -----------------------------------------------------------
template <class T, class E>
struct Model {
  bool has;
  bool known;  // a moved-from payload is not specified
  uint64_t v;
};
template <class T, class E>
static void agree(const X<T, E>& x, const Model<T, E>& m, const char* state, const char* pay) {
  sym_check(x.has_value() == m.has && bool(x) == m.has, state);
  if (m.known && x.has_value() == m.has) sym_check(payload<T, E>(x) == (m.has && std::is_void_v<T> ? 0 : m.v), pay);
}
// builds the object at p
template <class T, class E>
static Model<T, E> build(void* p, uint64_t v) {
  Model<T, E> m{true, true, v};
  using Y = X<T, E>;
  switch (sym_choice("construction", 0, 11)) {
    case 0:  // a value
      if constexpr (std::is_void_v<T>) new (p) Y();
      else new (p) Y(trajopt::in_place, v);
      return m;
    case 1:  // an error
      new (p) Y(trajopt::unexpect, v);
      m.has = false;
      return m;
    case 2:
      if constexpr (!std::is_void_v<T>) { new (p) Y(T(v)); return m; }
      break;
    case 3:
      if constexpr (!std::is_void_v<T>) if constexpr (std::is_copy_constructible_v<T>) { const T t(v); new (p) Y(t); sym_check(t.get() == v, "source_kept"); return m; }
      break;
    case 4: {
      m.has = false;
      new (p) Y(unexpected<E>(v));
      return m;
    }
    case 5:
      if constexpr (std::is_copy_constructible_v<E>) {
        m.has = false;
        const unexpected<E> e(v);
        new (p) Y(e);
        sym_check(e.value().get() == v, "source_kept");
        return m;
      }
      break;
    case 6:  // a default value
      m.v = 7;
      new (p) Y();
      return m;
    case 7:
      if constexpr (!std::is_void_v<T>) { m.v = v + 1; new (p) Y(trajopt::in_place, {v}, 1); return m; }
      break;
    case 8:
      m.v = v + 1;
      m.has = false;
      new (p) Y(trajopt::unexpect, {v}, 1);
      return m;
    case 9:
      if constexpr (!std::is_void_v<T>) { new (p) Y(Src{v}); return m; }
      break;
    case 10:
    case 11: break;
  }
  sym_end();
  return m;
}
// from a result with other types: S is the type both payloads convert from
template <class T, class E, class S>
static Model<T, E> convert(void* p, uint64_t v) {
  Model<T, E> m{(bool)sym_choice("value", 0, 1), true, v};
  using Y = X<T, E>;
  expected<S, S> from = m.has ? expected<S, S>(trajopt::in_place, S{v}) : expected<S, S>(trajopt::unexpect, S{v});
  if (sym_choice("moving", 0, 1)) new (p) Y(std::move(from));
  else {
    const auto& c = from;
    new (p) Y(c);
    sym_check(from.has_value() == m.has && (m.has ? from->v : from.error().v) == v, "source_kept");
  }
  return m;
}
enum Op { COPY_ASSIGN, MOVE_ASSIGN, SELF, COPY_NEW, MOVE_NEW, SWAP, SWAP_FREE, SET, SET_MOVE, SET_CONVERT, EMPLACE, EMPLACE_LIST, FAIL, FAIL_MOVE, OPS };
// x := something, with y as the other object; false: not available
template <class T, class E>
static bool step(Op op, X<T, E>& x, Model<T, E>& mx, X<T, E>& y, Model<T, E>& my) {
  using Y = X<T, E>;
  const auto ox = mx, oy = my;
  uint64_t v = sym_u64("v");
  bool thrown = false;
  const size_t others = g_liveCount - heldBy<Y, T, E>(x) - heldBy<Y, T, E>(y);
  auto run = [&](auto&& f) {
    g_armed = true;
    try {
      f();
    } catch (const Thrown&) { thrown = true; }
    g_armed = false;
  };
  bool assignment = true;
  switch (op) {
    case COPY_ASSIGN:
      if constexpr (!std::is_copy_assignable_v<Y>) return false;
      else {
        const Y& c = y;
        run([&] { x = c; });
        mx = oy;
      }
      break;
    case MOVE_ASSIGN:
      run([&] { x = std::move(y); });
      mx = oy;
      if (!thrown) { my.has = y.has_value(); my.known = false; }
      break;
    case SELF:
      if constexpr (!std::is_copy_assignable_v<Y>) return false;
      else {
        const Y& c = x;
        run([&] { x = c; });
      }
      break;
    case COPY_NEW:
      if constexpr (!std::is_copy_constructible_v<Y>) return false;
      else {
        const Y& c = y;
        Y z(c);
        agree<T, E>(z, oy, "copy_state", "copy_payload");
        sym_check(g_liveCount == others + heldBy<Y, T, E>(x) + heldBy<Y, T, E>(y) + heldBy<Y, T, E>(z), "one_object_each");
      }
      break;
    case MOVE_NEW: {
      Y z(std::move(y));
      agree<T, E>(z, oy, "move_state", "move_payload");
      my.has = y.has_value();
      my.known = false;
      sym_check(g_liveCount == others + heldBy<Y, T, E>(x) + heldBy<Y, T, E>(y) + heldBy<Y, T, E>(z), "one_object_each");
      break;
    }
    case SWAP:
      if constexpr (!requires { x.swap(y); }) return false;
      else {
        run([&] { x.swap(y); });
        assignment = false;
        if (!thrown) { mx = oy; my = ox; }
        else { mx.has = x.has_value(); my.has = y.has_value(); mx.known = my.known = false; }
      }
      break;
    case SWAP_FREE:
      if constexpr (!requires { x.swap(y); }) return false;
      else {
        using std::swap;
        run([&] { swap(x, y); });
        assignment = false;
        if (!thrown) { mx = oy; my = ox; }
        else { mx.has = x.has_value(); my.has = y.has_value(); mx.known = my.known = false; }
      }
      break;
    case SET:
      if constexpr (std::is_void_v<T> || !requires(const T& t) { x = t; }) return false;
      else {
        const T t(v);
        run([&] { x = t; });
        sym_check(t.get() == v, "source_kept");
        mx = {true, true, v};
      }
      break;
    case SET_MOVE:
      if constexpr (std::is_void_v<T> || !requires(T& t) { x = std::move(t); }) return false;
      else {
        T t(v);
        run([&] { x = std::move(t); });
        mx = {true, true, v};
      }
      break;
    case SET_CONVERT:
      if constexpr (std::is_void_v<T> || !requires(const Src& t) { x = t; }) return false;
      else {
        const Src t{v};
        run([&] { x = t; });
        mx = {true, true, v};
      }
      break;
    case EMPLACE:
      if constexpr (std::is_void_v<T>) return false;
      else {
        run([&] { x.emplace(v); });
        mx = {true, true, v};
        assignment = false;
      }
      break;
    case EMPLACE_LIST:
      if constexpr (std::is_void_v<T>) return false;
      else {
        run([&] { x.emplace({v}, 1); });
        mx = {true, true, v + 1};
        assignment = false;
      }
      break;
    case FAIL:
      if constexpr (!std::is_nothrow_copy_constructible_v<E>) return false;
      else {
        const unexpected<E> e(v);
        run([&] { x = e; });
        sym_check(e.value().get() == v, "source_kept");
        mx = {false, true, v};
      }
      break;
    case FAIL_MOVE:
      if constexpr (!std::is_nothrow_move_constructible_v<E>) return false;
      else {
        unexpected<E> e(v);
        run([&] { x = std::move(e); });
        mx = {false, true, v};
      }
      break;
    default: return false;
  }
  if (thrown && assignment) {
    mx = ox;
    if (op == COPY_ASSIGN) my = oy;
    // a move that threw leaves its source unspecified
    if (op == MOVE_ASSIGN) { my.has = y.has_value(); my.known = false; }
    agree<T, E>(x, mx, "kept_state", "kept_payload");
    sym_reach("thrown");
  } else if (thrown && op != SWAP && op != SWAP_FREE) {  // emplacement
    mx = {x.has_value(), false, 0};
  } else {
    agree<T, E>(x, mx, "state", "payload");
  }
  agree<T, E>(y, my, "other_state", "other_payload");
  sym_check(!g_bad, "objects_used_while_alive");
  sym_check(g_liveCount == others + heldBy<Y, T, E>(x) + heldBy<Y, T, E>(y), "one_object_each");
  if (x.has_value() || y.has_value()) { payload<T, E>(x); payload<T, E>(y); sym_check(!g_bad, "held_object_alive"); }
  return true;
}
template <class T, class E>
static void history(size_t steps) {
  using Y = X<T, E>;
  start();
  g_fuse = sym_u64("fuse");
  alignas(Y) std::byte mem[2][sizeof(Y)];
  auto px = reinterpret_cast<Y*>(mem[0]);
  auto py = reinterpret_cast<Y*>(mem[1]);
  Model<T, E> mx = sym_choice("x", 0, 1) ? Model<T, E>{true, true, sym_u64("x")} : Model<T, E>{false, true, sym_u64("x")};
  Model<T, E> my = sym_choice("y", 0, 1) ? Model<T, E>{true, true, sym_u64("y")} : Model<T, E>{false, true, sym_u64("y")};
  auto make = [](Y* p, const Model<T, E>& m) {
    if (!m.has) new (p) Y(trajopt::unexpect, m.v);
    else if constexpr (std::is_void_v<T>) new (p) Y();
    else new (p) Y(trajopt::in_place, m.v);
  };
  make(px, mx);
  make(py, my);
  for (size_t i = 0; i < steps; i++) {
    auto op = (Op)sym_choice("operation", 0, OPS - 1);
    bool other = i > 0 && sym_choice("on", 0, 1);
    if (!(other ? step<T, E>(op, *py, my, *px, mx) : step<T, E>(op, *px, mx, *py, my))) sym_end();
  }
  px->~Y();
  py->~Y();
  sym_check(!g_bad, "destroyed_once");
  sym_check(g_liveCount == 0, "all_destroyed");
  sym_reach("end");
}
template <class T, class E>
static void construction() {
  using Y = X<T, E>;
  start();
  alignas(Y) std::byte mem[sizeof(Y)];
  auto p = reinterpret_cast<Y*>(mem);
  uint64_t v = sym_u64("v");
  Model<T, E> m;
  uint64_t how = sym_choice("how", 0, 2);
  if (how == 0) m = build<T, E>(mem, v);
  else if constexpr (std::is_void_v<T>) sym_end();
  else if (how == 1) m = convert<T, E, Src>(mem, v);
  else m = convert<T, E, Exp>(mem, v);
  agree<T, E>(*p, m, "state", "payload");
  sym_check(!g_bad, "objects_used_while_alive");
  sym_check(g_liveCount == heldBy<Y, T, E>(*p), "one_object_each");
  p->~Y();
  sym_check(!g_bad, "destroyed_once");
  sym_check(g_liveCount == 0, "all_destroyed");
  sym_reach("end");
}
#define HISTORY(name, T)                                                                    \
  SYM_CASE(c26_construct_##name) { withError<T>([]<class U, class E>() { construction<U, E>(); }); } \
  SYM_CASE(c26_one_##name) { withError<T>([]<class U, class E>() { history<U, E>(1); }); }
HISTORY(safe, Safe)
HISTORY(string, String)
HISTORY(copyonly, CopyOnly)
HISTORY(moveonly, MoveOnly)
HISTORY(pod, Pod<0>)
HISTORY(void, void)
#if THOROUGH
constexpr size_t STEPS = 3;
#else
constexpr size_t STEPS = 2;
#endif
SYM_CASE(c26_some) {
  switch (sym_choice("types", 0, 3)) {
    case 0: history<String, Tr<STRING, 1>>(STEPS); break;
    case 1: history<Pod<0>, Tr<STRING, 1>>(STEPS); break;
    case 2: history<CopyOnly, Tr<SAFE, 1>>(STEPS); break;
    case 3: history<void, Tr<STRING, 1>>(STEPS); break;
  }
}
