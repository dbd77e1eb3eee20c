// One robot state with symbolic values, and helpers to judge a constraint
// applied to it.
#pragma once
#include "common.hpp"
#include <trajopt/constraint/Constraint.hpp>
using namespace trajopt;
using sleipnir::OptimizationProblem;
struct St {
  double x, y, c, s, vx, vy, w, ax, ay, al;
  Pose2v pose;
  Translation2v v, a;
  Variable om, alv;
};
inline St state(bool unit) {
  St t;
  t.x = sym_real("x"); t.y = sym_real("y");
  t.c = sym_real("c", 1); t.s = sym_real("s", 1);
  if (unit) sym_assume(is_zero(t.c * t.c + t.s * t.s - 1.0));
  t.vx = sym_real("vx"); t.vy = sym_real("vy"); t.w = sym_real("omega");
  t.ax = sym_real("ax"); t.ay = sym_real("ay"); t.al = sym_real("alpha");
  t.pose = Pose2v{leaf(t.x), leaf(t.y), {leaf(t.c), leaf(t.s)}};
  t.v = Translation2v{leaf(t.vx), leaf(t.vy)};
  t.a = Translation2v{leaf(t.ax), leaf(t.ay)};
  t.om = leaf(t.w);
  t.alv = leaf(t.al);
  return t;
}
template <class K> void apply(K&& k, sleipnir::OptimizationProblem& p, St& t) { k.Apply(p, t.pose, t.v, t.om, t.a, t.alv); }
// admitted(state): holds for every state the posted constraints admit.
// Two cases each: `sound` assumes the posted constraints and checks the
// specification; `complete` assumes the specification and checks them.
