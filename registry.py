"""Which harness cases decide which property, in which numeric mode."""
PROPS = {}
NA = {}


def C(entry, file, mode="real", reach=(), **k):
    return dict(entry=entry, file=file, mode=mode, reach=list(reach), **k)


EXTRA = ("long", "many", "full", "large")  # beyond the base bounds: may stay undecided (the evidence says so)


def prop(pid, cases, bounds, assumptions=(), **k):
    cases = [dict(c, extra=True) if any(w in EXTRA for w in c["entry"].split("_")) and pid != "C12" else c for c in cases]
    PROPS[pid] = dict(cases=cases, bounds=bounds, assumptions=list(assumptions), **k)


REALS = "real arithmetic: double operations are interpreted over the reals (rounding, overflow, NaN and infinities are outside)"
PHYS = "constraints are judged by the set of real points they admit; solver tolerances and floating-point rounding are outside"
STUB = "Sleipnir is replaced by /verif/stubs/sleipnir (expression graph, constraint recording, nondeterministic solver hook)"

prop("C01", [
    C("c01_value", "c01", "fp", ["value", "throw"]),
    C("c01_gapfree", "c01", "fp", ["end"]),
], "0..5 segments (thorough 0..9); counts, waypoint and sample index arbitrary 64-bit values (gap-free case: counts < 2^40 so totals do not wrap)")

prop("C02", [C("c02_linspace", "c02", "delta", ["some", "none"])],
     "n = 0..6 (thorough 0..12); endpoints arbitrary reals in [-1e9, 1e9], every rounding error within half an ulp is allowed",
     ["round-to-nearest rounding of every operation is over-approximated by its relative error bound; overflow and NaN inputs are outside"])
prop("C03", [C("c03_angle", "c02", "real", ["some", "none"], opts={"max-time": 120}, fallback=dict(entry="c03_angle_near", bounds="angles of up to 6 turns"))],
     "n = 0..6 (thorough 0..12); both angles arbitrary reals up to 1e6 rad, tolerance 1e-9 rad (angles of up to 6 turns if the code loops over the turns; the evidence says so)",
     [REALS])
prop("C23", [C("c23_copy", "c23", "fp", ["end"]), C("c23_time", "c23", "delta", ["end"]), C("c23_heading", "c23", "real", ["end"])],
     "1..4 samples, 0..2 modules (thorough 8/4); copied fields bit-precise for all doubles; time steps arbitrary in [-1e6, 1e6] with rounding enclosures; heading over the reals",
     ["atan2 is axiomatised (range, quadrant, polar identities) in the heading case"])
prop("C05", [C("c05_%s_%s" % (f, t), "c05", "real", ["end"]) for f in ("binary", "roots", "divide", "rotate") for t in ("dd", "dv", "vd", "vv")] +
     [C("c05_build_" + t, "c05", "real", ["end"]) for t in ("dd", "vv", "vd")] + [C("c05_polar_angle", "c05", "real", ["end"]), C("c05_convert", "c05", "real", ["end"])],
     "all component values arbitrary reals; all four number/variable combinations; rotations arbitrary unit vectors", [REALS, STUB])
prop("C06", [C("c06_" + e, "c06", "real", ["end"]) for e in ("group_d", "group_v", "assoc_d", "assoc_v", "mixed", "angle", "angle_exact", "pose_d", "pose_v", "pose_heading", "convert")],
     "all components arbitrary reals; rotations arbitrary unit vectors; angles arbitrary reals", [REALS, STUB, "sin, cos and atan2 are axiomatised (unit circle, quadrants, parity, periodicity by 2 pi, polar identities)"])
UNIT = "trigonometric functions are axiomatised (unit circle, parity); squared quantities are compared with an absolute margin of 1e-6"
prop("C07", [C("c07_translation_" + d, "c07", "real", ["end"]) for d in ("sound", "complete")] + [C("c07_pose_" + d, "c07", "real", ["end"]) for d in ("sound", "complete")] +
     [C("c07_%s_%s" % (k, t), "c07", "real", ["sound", "complete"]) for k in ("teq", "req") for t in ("vd", "dv", "vv")] + [C("c07_peq_" + t, "c07", "real", ["end"]) for t in ("vd", "vv")],
     "one robot state; all state values and targets arbitrary reals", [REALS, STUB, PHYS, UNIT])
prop("C08", [C("c08_%s_%s" % (k, d), "c07", "real", ["end"]) for k in ("velocity", "acceleration", "spin") for d in ("sound", "complete")],
     "one robot state; all state values and limits >= 0 arbitrary reals", [REALS, STUB, PHYS, UNIT])
prop("C09", [C("c09_" + d, "c07", "real", ["end"]) for d in ("sound", "complete")],
     "one robot state; all state values and angles arbitrary reals", [REALS, STUB, PHYS, UNIT])
prop("C10", [C("c10_" + d, "c07", "real", ["end"]) for d in ("sound", "complete")],
     "one robot state with unit heading; all other values arbitrary reals; tolerance in [0, pi]", [REALS, STUB, PHYS, UNIT])
prop("C11", [C("c11_%s_%s" % (k, d), "c07", "real", ["end"]) for k in ("pointpoint", "linepoint", "pointline") for d in ("sound", "complete")],
     "one robot state with unit heading; all coordinates arbitrary reals; segments at least 0.03 m long; distance >= 0", [REALS, STUB, PHYS, UNIT])
prop("C04", [C("c04_shape", "c04", "real", ["end"], repo=True), C("c04_heading", "c04", "real", ["dense", "sparse"], repo=True), C("c04_full", "c04", "real", ["end"], repo=True)],
     "positions: 1..2 segments, 1..4 intervals each, 0..3 intermediate guess points each (thorough 6/4); headings: one segment, 1..4 intervals, 0..2 intermediate points (thorough 6/3), half-turn ties excluded; positions with the default of 40 intervals, up to 130 intervals and up to 4 guess points at given shapes; all coordinates and headings arbitrary reals up to 1e6", [REALS, STUB])
prop("C12", [C("c12_" + e, "c12", "real", ["end"], repo=True) for e in ("waypoint", "segment", "waypoint_two", "segment_two", "waypoint_many", "segment_many")],
     "1..4 corners per bumper and obstacle (thorough 5), one or two bumpers (two: 1..2 corners each, thorough 3), 4..8 corners in five shape pairs, 3 waypoints (thorough 4), every waypoint and every range; all coordinates, distances >= 0 and robot poses with unit heading arbitrary reals", [REALS, STUB, PHYS, "the distance constraints mean what C11 decides"])
prop("C13", [C("c13_seq%d" % i, "c12", "real", ["end"], repo=True) for i in range(9)] + [C("c13_three", "c12", "real", ["end"], repo=True)],
     "all sequences of 2 builder calls of 9 kinds with indices 0..2, and of 3 calls of 6 kinds with indices 0..1 (thorough: 3 calls of 9 kinds); explicit count lists shorter than, equal to and longer than the path, 0..2 segment guess points; all coordinates, headings, limits and explicit counts arbitrary", [REALS, STUB])
GEN = "1..2 segments with 1..2 intervals each, 1..2 modules (thorough 1..3 segments, 1..3 modules); all variable values, masses, module positions and limits arbitrary reals (mass, inertia, wheel radius, speed, torque > 0)"
prop("C15", [C("c15_" + e, "c15", "real", ["end"], repo=True) for e in ("sound", "unit", "unit_nofix", "complete", "long", "long_complete", "full", "full_complete")], GEN + "; and 3 segments of up to 5 intervals and one of the default 40 with one module", [REALS, STUB, PHYS])
prop("C16", [C("c16_" + e, "c15", "real", ["end"], repo=True) for e in ("sound", "complete", "many", "many_complete", "long", "long_complete", "full", "full_complete")], GEN + "; 5..7 modules (thorough 9) at given places on one interval; 3 segments of up to 5 intervals and one of the default 40 with one module", [REALS, STUB, PHYS, "headings are unit vectors (C15)"])
prop("C17", [C("c17_" + e, "c15", "real", ["end"], repo=True) for e in ("sound", "complete", "many", "many_complete", "long", "long_complete", "full", "full_complete")], GEN + "; 5..7 modules (thorough 9) at given places on one interval; 3 segments of up to 5 intervals and one of the default 40 with one module", [REALS, STUB, PHYS, "headings are unit vectors (C15)"])
prop("C18", [C("c18_" + e, "c15", "real", ["end"], repo=True) for e in ("objective", "objective_large", "travel_sound", "travel_complete", "travel_many", "travel_many_complete")], GEN + "; the objective with up to 157 intervals; wheel travel: up to 3 modules (thorough 4) anywhere, 5..7 (thorough 9) at given places", [REALS, STUB, PHYS])
prop("C14", [C("c14_" + e, "c14", "real", ["end"], repo=True) for e in ("kinds", "places", "waypoints", "long", "full", "many")],
     "all 10 constraint classes at every waypoint and on every prefix range of 1..2 segments of 1 or 3 intervals; two requests at every pair of waypoints/ranges of 1..2 segments (thorough 1..3) with 1..2 intervals each; one request anywhere on segments of 4, 3 and 5 and of the default 40 intervals; 4..6 requests of different kinds at one place (thorough 9); all parameters and variable values arbitrary reals", [REALS, STUB, PHYS, "the constraint classes mean what C07-C11 decide; equations without requested constraints are C15-C18's"])
prop("C19", [C("c19_" + e, "c19", "real", ["end"], repo=True) for e in ("solution", "many", "long", "full")], "1..2 segments of 1..3 intervals, 1..2 modules (thorough 3 segments, 3 modules); 5..6 modules (thorough 9) at given places on one interval; 3 segments of up to 5 intervals and one of the default 40 with one module; all solver values, guesses and robot parameters arbitrary reals; two iterates, either success status",
     [REALS, STUB, "which quantity an entry is gets judged by its starting value (C28) or by the equations of motion (C15, C16, C17)"])
prop("C28", [C("c28_" + e, "c19", "real", ["end"], repo=True) for e in ("start", "full")], "1..2 segments of 1..3 intervals (thorough 3 segments), one of the default 40 and three of 9, 2 and 4, with and without one intermediate guess; all guesses arbitrary reals up to 1e6", [REALS, STUB, "the guess itself is C04's"])
prop("C29", [C("c29_order", "c19", "real", ["end"], repo=True)], "2..3 modules (thorough 4), every transposition and one rotation of the list, 1..2 segments; all parameters and variable values arbitrary reals", [REALS, STUB, PHYS])
CLK = "the clock is a stand-in: one arbitrary nondecreasing reading per iteration"
prop("C20", [C("c20_status", "c20", "fp", ["error", "solution", "stopped"], repo=True), C("c20_ffi", "c24", "real", ["error", "solution"], repo=True, ffi=True)], "every solver status, with and without two progress callbacks and a request from inside one; one path of 2 intervals", [STUB, CLK])
prop("C21", [C("c21_runs", "c20", "fp", ["stopped", "finished"], repo=True), C("c21_nested", "c20", "fp", ["both", "end"], repo=True)], "2 successive generations of 2 iterations each (thorough 3/3) with a possible request before each generation, before each iteration and inside each progress callback, from this or from another thread, and other generators being built meanwhile; one generation during another, requests after both have started", [STUB, CLK, "requests come between the library's instructions at these points; Generate calls that overlap otherwise than one inside the other are not covered"])
prop("C22", [C("c22_one", "c20", "fp", ["published", "withheld", "end"], repo=True), C("c22_two", "c20", "fp", ["published", "withheld", "end"], repo=True)], "4 iterations of one generation, or 2 of each of two generations (thorough 5, 2x3); gaps of 0..100 s in whole nanoseconds, arbitrary handles, 1..3 callbacks", [STUB, CLK])
prop("C30", [C("c30_own", "c20", "real", ["end"], repo=True), C("c30_builder", "c20", "real", ["end"], repo=True), C("c30_move", "c20", "real", ["end"], repo=True)], "1..2 segments; 8 kinds of later change to the builder or a copy of it; one further generator; one move or copy of a generator; all parameters arbitrary reals", [REALS, STUB, CLK])
prop("C24", [C("c24_setup", "c24", "real", ["end"], repo=True, ffi=True), C("c24_waypoint", "c24", "real", ["end"], repo=True, ffi=True), C("c24_segment", "c24", "real", ["end"], repo=True, ffi=True),
             C("c24_polygon", "c24", "real", ["end", "ragged_polygon"], repo=True, ffi=True), C("c24_two", "c24", "real", ["end"], repo=True, ffi=True), C("c24_trajectory", "c24", "real", ["end"], repo=True, ffi=True), C("c24_cancel", "c24", "real", ["end"], repo=True, ffi=True)],
     "each of the 19 builder calls once, and pairs of 4 kinds (thorough 6), on a path of 3 waypoints with 2 and 1 intervals, every waypoint and range; 0..2 extra guess points, polygons of 1..4 corners; 3 samples plus 2 iterates with 0..2 callbacks; all arguments and solver values arbitrary reals", [REALS, STUB, CLK, "cxx is a stand-in: rust::Vec, rust::Fn and the shared structs generated from src/lib.rs"])
TYPES = ("safe", "string", "copyonly", "moveonly", "pod", "void")
prop("C26", [C("c26_%s_%s" % (k, t), "c26", "fp", ["end"]) for k in ("construct", "one") for t in TYPES] + [C("c26_some", "c26", "fp", ["end", "thrown"])],
     "one operation of 14 kinds on two results in every state, for 6 kinds of value type and 5 kinds of error type (never throwing, throwing copies, copies only, moves only, trivial; void); two operations (thorough three) for 4 pairs of types; 12 kinds of construction; all payloads arbitrary 64-bit values; at most one copy throws, any one of them")
prop("C27", [C("c27_%s_%s" % (k, t), "c27", "fp", ["end"]) for k in ("access", "combine", "compare") for t in TYPES],
     "a result in either state, used as lvalue, const lvalue, rvalue and const rvalue, for 6 kinds of value type and 5 kinds of error type; every accessor, combinator and comparison; all payloads, defaults and function results arbitrary 64-bit values")
prop("C25", [], "each of the 22 API functions with all argument bits arbitrary and lists of 0..3 elements (thorough 0..4), on either of two builders; 31 pairs of calls on the same and on different builders (thorough all 529); trajectories of 0..2 samples (thorough 3), messages of 0..3 arbitrary ASCII characters (thorough 4) and one of 77",
     ["cxx and the bridge are stand-ins that record each call; their generated glue is outside", "the bridge's C++ side is C24"], kind="kani")
