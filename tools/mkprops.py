import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
I="include/trajopt/"
U=I+"util/TrajoptUtil.hpp"
p("C01","Flattened sample indexing is gap-free, ordered and never reads out of range",
 "For every list of per-segment interval counts, the flattened index of (waypoint w, sample s) is s for w = 0 and otherwise 1 plus the counts of the first w-1 segments plus s, so the samples of consecutive segments are numbered consecutively from 0 with no gap and no overlap, and the index one past the last segment is the total sample count (1 + sum of the counts). Asking for a waypoint that needs more segments than the list has is reported as an out-of-range error and never reads outside the list.",
 ["inputs"],"all interval-count lists (any 64-bit counts), waypoint indices and sample indices","The test evaluates four index pairs on one list; the mapping must hold for every list and every 64-bit value.",
 [U],[("GetIndex",U)],observe=["return value of GetIndex()"])
p("C02","Linear interpolation gives exactly n evenly spaced points ending at the target",
 "Interpolating from a to b with n samples returns exactly n values, none for n = 0; the k-th value (k = 1..n) is a + k(b-a)/n up to floating-point rounding, so the start is excluded, the last value is b up to rounding, and the values never leave the interval between a and b by more than rounding.",
 ["inputs"],"all finite start and end values of moderate magnitude and all sample counts","One test interpolates 0..2 with n = 2; rounding and every other start, end and count are unexplored.",
 [U],[("Linspace",U)],observe=["vector returned by Linspace()"])
p("C03","Heading interpolation takes the short way round and lands on the target heading",
 "Interpolating between two headings with n samples returns exactly n angles in equal steps whose total turn is at most half a revolution in magnitude, and the last angle equals the requested end heading modulo a full revolution up to rounding. This holds for any two angles, not only angles already wrapped to one revolution.",
 ["inputs"],"all pairs of angles within many revolutions, all sample counts","No test calls the angle interpolation at all; the wrap-around boundaries at odd multiples of pi are the rare inputs.",
 [U],[("AngleLinspace",U)],observe=["vector returned by AngleLinspace()"])
G=I+"util/GenerateLinearInitialGuess.hpp"
p("C04","The initial guess has one entry per sample and passes through every guess point",
 "For any waypoint guess points and interval counts, the linear initial guess holds exactly 1 + (sum of counts) x, y, heading-cosine, heading-sine and time-step entries; it starts at the first waypoint's guess, equals each waypoint's last guess point at that waypoint's sample, visits the intermediate guess points of a segment in order (when the segment has at least as many intervals as guess points), and is piecewise linear in between with the heading turning the short way. All its time steps are equal and positive.",
 ["inputs","configurations"],"all guess-point coordinates and headings, numbers of guess points per segment and interval counts, including counts not divisible by, or smaller than, the number of guess points","Two tests use three fixed guess points each with zero headings and only look at x; uneven splits, y, headings and shapes are unexplored.",
 [G,U,"src/path/SwervePathBuilder.cpp"],[("GenerateLinearInitialGuess",G),("SwervePathBuilder::CalculateInitialGuess","src/path/SwervePathBuilder.cpp")],observe=["SwerveSolution returned by CalculateInitialGuess()"])
T2=I+"geometry/Translation2.hpp"; R2=I+"geometry/Rotation2.hpp"; P2=I+"geometry/Pose2.hpp"
p("C05","2D translations obey the vector laws",
 "Sum, difference, negation, scaling, division, dot product, cross product, norm, squared norm, distance, polar construction and structured-binding access of translations agree with the component-wise definitions for all values, for plain numbers and for optimization variables alike and for mixtures of the two. Rotating a translation preserves its length and dot products, and adds the angle counter-clockwise.",
 ["inputs"],"all component values and rotation angles","The tests use one or two concrete vectors per operation and plain numbers only; optimization-variable and mixed instantiations are never evaluated.",
 [T2],[("Translation2 operators",T2)],observe=["values of Translation2 results"])
p("C06","Rotations compose as a group and poses rotate rigidly",
 "Composition of rotations adds their angles (product formula on cosine and sine), negation inverts, subtracting a rotation from itself gives the identity, composition is associative and stays on the unit circle, and reading a rotation back as an angle returns the angle it was built from modulo a full turn, in radians and in degrees. Rotating a pose rotates its position about the origin and adds to its heading; conversions between number types keep every component.",
 ["inputs"],"all rotation angles and poses","The tests check a handful of angles with plain numbers; group laws need all triples of angles.",
 [R2,P2],[("Rotation2 operators",R2),("Pose2::RotateBy",P2)],observe=["values of Rotation2 and Pose2 results"])
p("C07","Equality constraints pin exactly the requested position, heading or pose",
 "A translation equality holds exactly when both coordinates equal the requested ones; a heading equality holds exactly when the heading vector is a unit vector and points along the requested heading or (the documented ambiguity) exactly opposite to it; a pose equality is the conjunction of both. The waypoint pose and translation constraints admit exactly those robot poses, whatever the velocities and accelerations.",
 ["inputs"],"all requested poses and all values of the robot state variables","No test evaluates a constraint on optimization variables; the admitted set is a statement about all real states.",
 [T2,R2,P2,I+"constraint/PoseEqualityConstraint.hpp",I+"constraint/TranslationEqualityConstraint.hpp"],[("operator==",T2),("operator==",R2),("operator==",P2),("PoseEqualityConstraint::Apply",I+"constraint/PoseEqualityConstraint.hpp")],observe=["constraints posted to the optimization problem"])
p("C08","Speed, spin and acceleration limits admit exactly the states within the limit",
 "For every nonnegative limit, the linear-velocity, linear-acceleration and angular-velocity magnitude constraints admit exactly those states whose respective magnitude is at most the limit, including a zero limit, and restrict nothing else about the state.",
 ["inputs"],"all nonnegative limits (including zero) and all robot states","No test evaluates these constraints.",
 [I+"constraint/LinearVelocityMaxMagnitudeConstraint.hpp",I+"constraint/LinearAccelerationMaxMagnitudeConstraint.hpp",I+"constraint/AngularVelocityMaxMagnitudeConstraint.hpp"],[("Apply",I+"constraint/LinearVelocityMaxMagnitudeConstraint.hpp"),("Apply",I+"constraint/LinearAccelerationMaxMagnitudeConstraint.hpp"),("Apply",I+"constraint/AngularVelocityMaxMagnitudeConstraint.hpp")],observe=["constraints posted to the optimization problem"])
p("C09","The velocity direction constraint admits exactly velocities along the given line",
 "For every angle, the velocity direction constraint admits exactly the linear velocities collinear with that direction (either sense, including zero velocity), and restricts nothing else about the state.",
 ["inputs"],"all angles and all robot states","No test evaluates this constraint.",
 [I+"constraint/LinearVelocityDirectionConstraint.hpp"],[("Apply",I+"constraint/LinearVelocityDirectionConstraint.hpp")],observe=["constraints posted to the optimization problem"])
p("C10","The point-at constraint bounds the heading error towards the field point",
 "For every field point and every heading tolerance between 0 and half a turn, the point-at constraint admits exactly those robot poses whose heading deviates from the direction towards the field point by at most the tolerance, in either sense of rotation, and restricts nothing else about the state.",
 ["inputs"],"all field points, tolerances and robot poses with unit heading","No test evaluates this constraint.",
 [I+"constraint/PointAtConstraint.hpp"],[("Apply",I+"constraint/PointAtConstraint.hpp")],observe=["constraints posted to the optimization problem"])
L=I+"constraint/detail/LinePointDistance.hpp"
p("C11","Keep-out constraints enforce the true distance to points and line segments",
 "The point-point, line-point and point-line constraints admit exactly the robot poses at which the Euclidean distance between the two features (a robot-fixed point or segment moved by the pose, and a field-fixed point or segment) is at least the requested minimum distance, for any nonnegative minimum distance. The distance to a segment (of nonzero length) is the distance to its nearest point, end points included, and not to the infinite line.",
 ["inputs"],"all robot poses, all feature coordinates (segments of nonzero length) and all nonnegative minimum distances","No test evaluates a distance constraint; the only obstacle test is skipped.",
 [I+"constraint/PointPointConstraint.hpp",I+"constraint/LinePointConstraint.hpp",I+"constraint/PointLineConstraint.hpp",L],[("LinePointDistance",L),("Apply",I+"constraint/LinePointConstraint.hpp"),("Apply",I+"constraint/PointLineConstraint.hpp"),("Apply",I+"constraint/PointPointConstraint.hpp")],observe=["constraints posted to the optimization problem"])
B="src/path/SwervePathBuilder.cpp"; BH=I+"path/SwervePathBuilder.hpp"
p("C12","Obstacle avoidance covers every bumper and edge, including the closing edge",
 "Applying an obstacle keeps every corner of every bumper outline added so far at least (bumper safety distance + obstacle safety distance) away from every edge of the obstacle, and every obstacle corner that far from every bumper edge, where the edge closing a polygon of three or more points counts as an edge; single points and two-point segments work as well. A bumper outline and an obstacle have at least one corner. It requires nothing beyond these distances, applies to the waypoint or to the whole range of waypoints and segments asked for, and never fails for any combination of corner counts.",
 ["inputs","configurations"],"all bumper and obstacle polygons (any corner counts of at least one), any number of bumpers, all safety distances","The only obstacle test is skipped, and no test inspects which edge/corner pairs are constrained.",
 [B,I+"obstacle/Obstacle.hpp",I+"obstacle/Bumpers.hpp"],[("SwervePathBuilder::WptObstacle",B),("SwervePathBuilder::SgmtObstacle",B)],observe=["constraints recorded in GetPath().waypoints"])
p("C13","The path builder keeps waypoints, guesses, counts and constraints aligned",
 "After any sequence of builder calls, the builder has exactly as many waypoints as the highest index mentioned so far plus one, one initial guess list per waypoint and, unless counts were set explicitly, one interval count per segment (40 by default); counts set explicitly are kept as given, and each waypoint added later appends the default. A waypoint constraint is recorded at that waypoint only; a segment constraint from i to j is recorded at all waypoints i..j and on all segments between them and nowhere else; earlier records are never lost or altered, and the latest guess for a waypoint wins.",
 ["histories","inputs"],"all sequences of builder calls and all waypoint indices","One test makes four calls in a fixed order and checks only the guessed x values.",
 [B,BH,I+"path/Path.hpp"],[("NewWpts",B),("WptConstraint / SgmtConstraint",BH)],state=[("waypoints","constraints per waypoint and per incoming segment",I+"path/Path.hpp"),("initialGuessPoints, controlIntervalCounts","guess points per waypoint, samples per segment",BH)],observe=["GetPath()","GetControlIntervalCounts()","CalculateInitialGuess()"])
S="src/SwerveTrajectoryGenerator.cpp"
p("C14","Each requested constraint is enforced at exactly its samples",
 "In the optimization problem built for a path, a waypoint constraint restricts exactly the sample at which that waypoint is reached (sample 0 for the first waypoint, the last sample of the incoming segment otherwise), and a segment constraint restricts every sample of every segment in its range and the two end waypoints; no other sample is restricted by it. Every trajectory returned therefore meets each requested constraint, and no trajectory is excluded by a constraint that was not requested there.",
 ["inputs","configurations"],"all paths (waypoint counts, interval counts, constraint placements) and all values of the decision variables","No test builds an optimization problem.",
 [S,B],[("SwerveTrajectoryGenerator constructor: waypoint and segment constraint loops",S)],observe=["constraints posted to the optimization problem","SwerveSolution returned by Generate()"])
p("C15","Returned trajectories satisfy the discretized equations of motion",
 "Every solution returned satisfies, between each pair of consecutive samples and with the time step of the segment they belong to: position change = velocity x step, velocity change = acceleration x step, angular-velocity change = angular acceleration x step, and heading change = angular velocity x step up to the documented half-turn ambiguity; and every heading is a unit vector. Conversely no motion that satisfies these equations is excluded.",
 ["inputs","configurations"],"all paths and all values of the decision variables the solver may return","No test builds an optimization problem; the equations must hold for every solver outcome.",
 [S],[("SwerveTrajectoryGenerator constructor: kinematics constraints",S)],observe=["constraints posted to the optimization problem","SwerveSolution returned by Generate()"])
p("C16","Returned trajectories satisfy Newton-Euler dynamics with the module forces",
 "At every sample of every returned solution, the sum of the module forces equals mass x acceleration on each field axis, and the sum of the torques of the module forces about the robot centre (module position rotated by the heading, crossed with its force) equals moment of inertia x angular acceleration. No trajectory satisfying these laws is excluded, for any number of modules at any positions.",
 ["inputs","configurations"],"all drivetrains (mass, inertia, number and positions of modules) and all values of the decision variables","No test builds an optimization problem.",
 [S,I+"drivetrain/SwerveDrivetrain.hpp"],[("SwerveTrajectoryGenerator constructor: dynamics constraints",S)],observe=["constraints posted to the optimization problem","SwerveSolution returned by Generate()"])
p("C17","Returned trajectories respect every module's speed and force limits",
 "At every sample of every returned solution and for every module, the speed of the wheel in the robot frame (chassis velocity rotated into the robot frame plus spin x module position) (headings being unit vectors) is at most wheel radius x maximum wheel speed, and the module's force is at most maximum wheel torque / wheel radius, each module with its own limits. No trajectory within these limits is excluded by them.",
 ["inputs","configurations"],"all drivetrains and all values of the decision variables","No test builds an optimization problem.",
 [S,I+"drivetrain/SwerveModule.hpp"],[("SwerveTrajectoryGenerator constructor: module power constraints",S)],observe=["constraints posted to the optimization problem","SwerveSolution returned by Generate()"])
p("C18","Total time is what is minimized, with nonnegative bounded time steps",
 "The objective minimized is the duration of the trajectory: the sum over segments of interval count x time step. Every time step is nonnegative, and no step lets a wheel at full speed travel further than the smallest nonzero spacing, along either robot axis, between any two modules; time steps are not restricted otherwise.",
 ["inputs","configurations"],"all drivetrains, interval counts and time-step values","No test builds an optimization problem.",
 [S],[("SwerveTrajectoryGenerator constructor: objective and dt constraints",S)],observe=["objective and constraints posted to the optimization problem"])
p("C19","The returned solution mirrors the solver's values with consistent shapes",
 "A returned solution holds, for each of 1 + (sum of counts) samples, the solver's final values of position, heading, velocities, accelerations and of one x and one y force per module in the order the modules were given; its time-step list holds one entry per interval, each equal to the step of its own segment. Different quantities never share or swap values.",
 ["inputs","configurations"],"all paths, drivetrains and solver outcomes","No test solves a problem.",
 [S,I+"solution/SwerveSolution.hpp"],[("ConstructSwerveSolution, RowSolutionValue, MatrixSolutionValue",S)],observe=["SwerveSolution returned by Generate() or passed to callbacks"])
p("C20","Failures are reported as errors and successes as solutions, never the reverse",
 "Generate returns a solution exactly when the solver ends with a success or acceptable-tolerance status, and otherwise, for every failure status and for a stop requested by a callback, an error carrying that status' own message. Through the foreign-function layer an error becomes an exception carrying the same message, and a success becomes the trajectory of that solution.",
 ["inputs","fault_sequences"],"all solver exit statuses and all decision-variable values","No test runs Generate to completion; failure statuses cannot be provoked by examples.",
 [S,"src/RustFFI.cpp",I+"util/expected"],[("SwerveTrajectoryGenerator::Generate",S),("rsffi::SwervePathBuilder::generate","src/RustFFI.cpp")],observe=["result of Generate()","exception from the FFI generate()"])
p("C21","A cancellation request stops the generation in progress and does not leak",
 "If cancellation is requested at any moment while a generation is running, the solver is told to stop at its next iteration and Generate reports failure; without a request the library never stops the solver. A request made before a generation starts does not affect it, and there is one process-wide cancellation flag, initially clear.",
 ["schedules","histories"],"all points of time at which a cancellation request arrives relative to starts and iterations of generations, over sequences of generations","No test runs or cancels a generation; the request can arrive at any iteration.",
 ["src/util/Cancellation.cpp",S,"src/RustFFI.cpp"],[("GetCancellationFlag","src/util/Cancellation.cpp"),("SwerveTrajectoryGenerator::Generate",S),("cancel_all","src/RustFFI.cpp")],state=[("cancellation flag","nonzero when running generations must stop","src/util/Cancellation.cpp")],observe=["return value of the solver callback","result of Generate()"])
p("C22","Progress callbacks see the current iterate and their handle, rate limited",
 "Whenever progress is published, every registered callback is called exactly once, in registration order, with the handle of its generation and a solution holding the solver's current iterate. Publications are at least 1/60 s apart, and an iteration that comes at least 1/60 s after the previous publication (or, before any, after the first iteration) is published.",
 ["schedules","inputs"],"all clock readings (nondecreasing), iterates, handles and numbers of callbacks","No test registers a callback; clock and iterate sequences are unbounded.",
 [S,B],[("SwerveTrajectoryGenerator constructor: callback with frame limiter",S),("SwervePathBuilder::AddIntermediateCallback",B)],observe=["arguments and order of callback invocations"])
H=I+"trajectory/HolonomicTrajectory.hpp"
p("C23","Exported trajectories carry every sample with the right timestamp",
 "Converting a solution gives one sample per solution entry, in order; the first timestamp is 0 and each further timestamp is the previous one plus the time step between the two samples, so timestamps never decrease for nonnegative steps. Position, velocities and module forces are copied unchanged and the heading is the angle of that sample's heading vector.",
 ["inputs"],"all solutions (any number of samples, modules and any values)","No test converts a solution.",
 [H,I+"trajectory/HolonomicTrajectorySample.hpp"],[("HolonomicTrajectory(const SwerveSolution&)",H)],observe=["HolonomicTrajectory::samples"])
F="src/RustFFI.cpp"
p("C24","The C++ foreign-function layer is equivalent to calling the C++ API",
 "For every argument values, each foreign-function builder call has exactly the effect of the corresponding C++ builder call (rectangular bumpers centred on the robot with 0.01 m safety distance, circle and polygon obstacles with the radius as safety distance), and the trajectory handed back or passed to progress callbacks holds the same samples, field by field, as the C++ trajectory. A polygon with differing numbers of x and y coordinates is ignored.",
 ["inputs","histories"],"all argument values of all foreign-function calls","No test covers the foreign-function layer.",
 [F,"src/RustFFI.hpp","src/lib.rs"],[("rsffi::SwervePathBuilder",F)],observe=["problem built by the wrapped builder","returned HolonomicTrajectory"])
p("C25","The Rust API forwards every call and argument unchanged",
 "Every method of the Rust path builder, and the cancellation function, forwards exactly once to its foreign-function counterpart on the same builder with all arguments unchanged and in the right positions. Generation returns the trajectory on success and the error message of the exception on failure.",
 ["inputs"],"all argument values of all Rust API methods","The crate has no tests and cannot be built here.",
 ["src/lib.rs"],[("impl SwervePathBuilder","src/lib.rs")],observe=["calls received by the bridge"])
X=I+"util/expected"
p("C26","A result object holds exactly one of value and error through any history",
 "A result holds either a value or an error, never both or neither; construction, copy, move, assignment between any combination of states, emplacement and swap all leave the destination with the source's state and payload, and swap exchanges state and payload; copies do not change their source. Objects held are destroyed exactly once, also when a copy throws during assignment, in which case the destination keeps its old state.",
 ["histories","inputs"],"all payload values, all state combinations and sequences of operations","The header is only compiled; no test instantiates it.",
 [X],[("expected_storage_base, expected_operations_base, expected_copy_assign_base",X)],observe=["has_value(), value(), error() and constructor/destructor counts of payloads"])
p("C27","Result access and combinators act on the state that is present",
 "Accessing the value of a result that holds an error throws an exception carrying that error, and a default is returned exactly when there is no value; mapping, chaining, error-mapping and or-else call their function exactly once when the matching state is present with the stored payload, and otherwise pass the other state through unchanged. Equality compares state and payload.",
 ["inputs","histories"],"all payload values and states","The header is only compiled; no test instantiates it.",
 [X],[("value(), value_or(), map, and_then, or_else, map_error, operator==",X)],observe=["results and call counts"])
p("C28","The solver starts from the initial guess with consistent rates",
 "When a problem is built, the starting value of every sample's position and heading is the linear initial guess of the path; the starting velocities, angular velocities (shortest turn) and accelerations are the finite differences of the guess over its time step, zero at the first sample. Every starting value is finite for interval counts of at least one.",
 ["inputs","configurations"],"all guess points, headings and interval counts","No test builds an optimization problem.",
 [S,G],[("ApplyInitialGuess",S)],observe=["starting values of the decision variables"])
p("C29","The order in which swerve modules are listed does not matter",
 "Listing the same swerve modules in a different order yields an equivalent optimization problem: the same trajectories are feasible (with the module forces permuted accordingly) and the same total time is minimized.",
 ["inputs","configurations"],"all drivetrains and permutations of their modules","No test builds an optimization problem.",
 [S,I+"drivetrain/SwerveDrivetrain.hpp"],[("SwerveTrajectoryGenerator constructor",S)],observe=["constraints posted to the optimization problem"])
p("C30","Generators own their path: later changes and other generators do not leak in",
 "A generator built from a path builder behaves as the builder was at that moment, whatever is done to the builder or to copies of it afterwards, and whatever other generators are built; building a generator leaves the builder unchanged. Building twice from the same builder gives equivalent problems. A moved or copied generator behaves as the original did.",
 ["histories"],"all interleavings of builder changes, generator constructions and generations","No test builds a generator.",
 [S,BH],[("SwerveTrajectoryGenerator(SwervePathBuilder, handle)",S)],observe=["constraints posted to the optimization problem","GetPath()"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,sch)
print(len(P))
