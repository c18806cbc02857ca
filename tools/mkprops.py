#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(obs), "hook_needed": hook}})
GEN = "src/SwerveTrajectoryGenerator.cpp"; GENH = "include/trajopt/SwerveTrajectoryGenerator.hpp"
BLD = "src/path/SwervePathBuilder.cpp"; BLDH = "include/trajopt/path/SwervePathBuilder.hpp"
FFI = "src/RustFFI.cpp"; RS = "src/lib.rs"; CAN = "src/util/Cancellation.cpp"
C = "include/trajopt/constraint/"
TESTS = "The existing tests check two index helpers only; "

p("S01", "A cancel request stops every generation that is solving",
  "A cancellation request (C++ flag or cancel_all) stops every generation that is already solving when the request is made, whichever thread runs it and whatever other generations are started, finish or fail meanwhile: each of them stops at its first solver iteration that begins after the request returned, and reports failure instead of a trajectory. Requests may come from any thread, from inside a progress callback, or several at once.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of any number of generations (also nested in callbacks), cancel requests and new generation starts, at every point of a solve",
  TESTS + "a lost cancel needs a particular interleaving of a request with another generation's start between two polls.",
  [GEN, CAN, "include/trajopt/util/Cancellation.hpp", FFI, RS],
  [("per-iteration poll of the process-wide flag", GEN), ("cancel_all", FFI)],
  [("cancellation flag", "process-wide request, reset when a generation starts", CAN)],
  ["return value of the solver's iteration callback", "result of Generate"])
p("S02", "A cancellation never reaches generations started after it",
  "A generation that starts after every cancellation request has been made and has returned is not stopped by any of them: old requests never leak into it, however many earlier generations were cancelled, failed, threw or never polled. A generation is stopped early only if a request was made after that generation was started.",
  ["schedules", "histories", "fault_sequences"],
  "all histories of cancels and generations, sequential, concurrent or nested, with failing and throwing ones in between",
  TESTS + "a stale request only shows in the next generation of a longer history.",
  [GEN, CAN, FFI], [("reset of the flag when a generation starts", GEN)],
  [("cancellation flag", "process-wide request", CAN)], ["return value of the solver's iteration callback", "result of Generate"])
p("S03", "The outcome reported is the outcome the solver reached",
  "Generation reports success exactly when the solver ended successfully (to the desired or to an acceptable tolerance), and the trajectory returned is then the solver's final state: every field of every sample, not an earlier iterate, another generation's state or a mixture. When the solver ended any other way (infeasible, diverging, out of iterations or time, stopped on request, ...) generation reports a failure that carries that solver outcome's own message and never a trajectory.",
  ["schedules", "fault_sequences", "histories"],
  "all solver outcomes and all iterate sequences, under all interleavings with other generations, callbacks and re-runs",
  TESTS + "no test reaches a generation at all.",
  [GEN, GENH, "include/trajopt/solution/SwerveSolution.hpp"],
  [("mapping of the exit condition", GEN), ("reading back the decision variables", GEN)],
  [], ["result of Generate"])
p("S04", "Progress updates are faithful, ordered snapshots with the right handle",
  "Every progress update delivered during a generation shows exactly the solver state of the iteration it is delivered in, carries the handle given to that generation, and goes to every callback registered on the path exactly once, in registration order. Updates only happen while that generation is solving and only callbacks of its own path see them.",
  ["schedules", "histories", "fault_sequences"],
  "all iteration timings, numbers of callbacks, interleavings with other generations, cancels and re-runs",
  TESTS + "no test registers a callback.",
  [GEN, BLD, FFI], [("progress callback installed in the problem", GEN), ("AddIntermediateCallback", BLD)],
  [("path callbacks", "registered callbacks", "include/trajopt/path/Path.hpp")], ["arguments of user callbacks"])
p("S05", "Progress updates are paced per generation: at most 60/s, never starved",
  "Within one generation successive progress updates are at least one 60 Hz frame apart, and any solver iteration that comes at least a frame after both the generation's start and its previous update does deliver an update, unless a cancellation stops the generation right there. This holds per generation: other generations running at the same time neither use up its frames nor give it extra ones, and changes of the wall clock have no influence.",
  ["schedules", "fault_sequences"],
  "all sequences of iteration durations (microseconds to minutes), slow callbacks, concurrent generations, coarse monotonic clocks and wall-clock jumps",
  TESTS + "pacing depends on clock readings and on what other generations do at the same time.",
  [GEN], [("frame-rate limit on updates", GEN)], [("last frame time", "when the last update was sent", GEN)],
  ["times of user callbacks against times of solver iterations"])
p("S06", "Concurrent generations do not interfere and are free of data races",
  "Generations running at the same time on different threads, each with its own builder or sharing one builder that nobody modifies, produce exactly what each would produce alone: same problem posed, same result, own callbacks and handle. The library performs no unsynchronised conflicting memory access while they run together with cancel requests, and no combination of them deadlocks.",
  ["schedules", "fault_sequences"],
  "all interleavings of generator construction, solving, callbacks, result extraction and cancels on several threads",
  TESTS + "single-threaded tests cannot exercise shared state.",
  [GEN, CAN, BLD, FFI], [("per-generator state", GENH), ("atomic cancellation flag", CAN)],
  [("cancellation flag", "process-wide", CAN), ("frame pacing state", "process-wide statics are shared by all threads", GEN)],
  ["posed problem", "results", "simulator's happens-before race detector"])
p("S07", "A generator is self-contained once constructed",
  "Once a generator is constructed it does not depend on the builder or on its own location: modifying, reusing or destroying the builder, or moving the generator to another object, changes neither the problem it solves, its callbacks and handle, nor its result, and never touches freed memory. Generating through a builder leaves the builder unchanged, so that generating again gives the same problem.",
  ["histories", "schedules", "programs"],
  "all programs of building, constructing, moving, mutating, destroying and running, in any order and interleaved with other threads",
  TESTS + "lifetime mistakes depend on the order of destruction and reuse.",
  [GEN, GENH, BLD, FFI], [("copy of the path into the generator", GEN), ("closures that capture the generator", GEN)],
  [("callbacks", "closures stored in the generator", GENH)], ["memory accesses of the library", "results"])
p("S08", "A generator can be run again after any outcome",
  "Running the same generator again, after success, solver failure, cancellation or an exception from a callback or the solver, behaves like a first run of the same posed problem: no constraint, variable or callback is added or duplicated by the earlier run, an earlier cancellation or failure does not carry over, and the result reported is that of the new run.",
  ["histories", "fault_sequences"],
  "all sequences of outcomes and faults over repeated runs of one generator",
  TESTS + "state left behind shows only in the second or later run.",
  [GEN, GENH], [("Generate installs its callback on every run", GEN)], [("problem", "persistent across runs", GENH)],
  ["posed problem at each solve", "results", "callback deliveries"])
p("S09", "Builder calls survive memory exhaustion",
  "If memory runs out at any point inside a path builder call, the call reports it by an exception and the builder stays consistent: repeating the call successfully leads to the same constraints and initial guess as if nothing had failed, and abandoning it leaves a builder whose later use describes a path between 'call not made' and 'call made'. Nothing leaks and later generations never crash.",
  ["fault_sequences", "histories"],
  "all allocation-failure points in all builder call sequences, retried or abandoned",
  TESTS + "no test fails an allocation.",
  [BLD, BLDH, FFI], [("keeping waypoints, guesses and interval counts in step", BLD)],
  [("waypoints / initialGuessPoints / controlIntervalCounts", "parallel vectors", BLDH)],
  ["posed problem", "initial guess", "allocator"])
p("S10", "Faults during generation are reported and contained",
  "If memory runs out, a progress callback throws or the solver throws while a generation is set up or running, that exception reaches the caller of that generation unchanged, nothing leaks, the builder is intact, and no other generation, running or later, is affected. In particular the process does not abort and no partial trajectory is returned as a success.",
  ["fault_sequences", "schedules"],
  "all allocation-failure points, callback-exception and solver-exception points, with other generations running",
  TESTS + "no test injects a fault.",
  [GEN, GENH, FFI, "include/trajopt/util/expected"],
  [("RAII in the generator", GEN), ("exception propagation through the solver callback", GEN)],
  [], ["exception seen by the caller", "allocator", "other generations' results"])
p("S11", "The result type stays valid when element operations fail",
  "The expected-type results are returned in keeps its promise when copying, moving or constructing the contained value or error throws (memory exhaustion in a trajectory or message copy): the exception reaches the caller, the process does not terminate, the object holds a valid value or error afterwards, and no element is leaked or destroyed twice, as long as the value or the error can be moved without failing. Without faults it behaves as the abstract 'value or error' after any sequence of operations.",
  ["fault_sequences", "histories", "programs"],
  "all sequences of construct, copy, move, assign, swap, emplace and monadic operations over all value categories, with a throw injected at every element operation",
  TESTS + "no test uses it; failures need a throw at a particular element operation.",
  ["include/trajopt/util/expected"], [("assignment and emplace with rollback", "include/trajopt/util/expected")],
  [("m_has_val", "which member is alive", "include/trajopt/util/expected")], ["constructions and destructions of elements"])
p("S12", "The Rust-facing layer reports trajectories, errors and handles faithfully",
  "Through the foreign-function layer a generation yields one sample per solver sample with cumulative time stamps starting at zero and the solver's final position, heading, velocity and module forces; a failed generation becomes an error carrying the solver's message; progress callbacks receive the same kind of samples for the current iteration together with the handle passed to that generate call. This holds for concurrent, cancelled, failing and repeated generations.",
  ["schedules", "fault_sequences", "histories"],
  "all solver outcomes and iterates, callbacks, cancels and interleavings of generate calls through this layer",
  TESTS + "no test reaches this layer.",
  [FFI, RS, "include/trajopt/trajectory/HolonomicTrajectory.hpp"],
  [("conversion of solutions to samples", FFI), ("exception to Result conversion", RS)], [],
  ["values returned by generate", "arguments of progress callbacks"])
p("S13", "Accepted trajectories obey the robot's physics, and all such are allowed",
  "Whatever point the solver chooses among those the posed problem permits, the trajectory returned as a success obeys the motion model between consecutive samples (positions, headings, velocities and accelerations integrate with the reported time steps), the force and torque balance of the whole drivetrain, and every module's wheel speed and force limit, with non-negative time steps. Conversely a trajectory that obeys all of these and all the path's constraints with room to spare is never excluded, as long as its time steps respect the generator's own bound (no wheel rolls further in one step than the smallest spacing of the modules). Headings are compared as the geometry code documents: equal up to a half turn.",
  ["inputs", "schedules", "configurations"],
  "all choices of an adversarial solver that honours only what was posed to it, over all drivetrains and paths",
  TESTS + "needs a statement about every admissible solver answer.",
  [GEN], [("kinematic, dynamic and module constraints posed to the solver", GEN)], [],
  ["constraints received by the solver", "trajectory returned"])
p("S14", "Waypoint and segment constraints bind exactly the samples they name",
  "Whatever point the solver chooses among those permitted, a trajectory returned as a success satisfies every waypoint constraint at that waypoint's sample and every segment constraint at every sample from the first named waypoint to the last, both included, for every kind of constraint and whatever the interval counts are. Conversely constraints bind nowhere else: trajectories that break a constraint only outside its range stay allowed. Directions and headings bind up to the half turn that the geometry code documents.",
  ["inputs", "programs", "configurations"],
  "all choices of an adversarial solver over all builder call sequences, interval counts and constraint kinds",
  TESTS + "an index slip shows only at one sample of one segment.",
  [GEN, BLDH, BLD, C + "Constraint.hpp"], [("placement of constraints by sample index", GEN), ("SgmtConstraint fan-out", BLDH)],
  [], ["constraints received by the solver", "trajectory returned"])
p("S15", "Accepted trajectories keep the bumpers clear of obstacles",
  "Whatever point the solver chooses among those permitted, at every sample an obstacle is applied to, every corner of every bumper outline registered before is at least the sum of both safety distances away from the obstacle's outline, and every obstacle corner from the bumper outline, for points, lines and polygons alike. Conversely a trajectory that keeps clear with room to spare is not excluded.",
  ["inputs", "programs", "configurations"],
  "all choices of an adversarial solver over all bumper and obstacle shapes, sizes and placements",
  TESTS + "needs the one edge or corner an obstacle approaches.",
  [BLD, C + "LinePointConstraint.hpp", C + "PointLineConstraint.hpp", C + "PointPointConstraint.hpp", C + "detail/LinePointDistance.hpp"],
  [("decomposition of outlines into edge and corner constraints", BLD)], [],
  ["constraints received by the solver", "trajectory returned"])
p("S16", "The solver is asked for the shortest total time",
  "Among any two trajectories the posed problem permits, the one with the smaller total duration has the smaller posed cost, for any number of segments and interval counts, so a solver that minimises what it is given returns the time-optimal one.",
  ["inputs", "configurations"],
  "all pairs of admissible solver answers over all interval counts",
  TESTS + "needs a comparison over every admissible solver answer.",
  [GEN], [("Minimize(total time)", GEN)], [], ["cost received by the solver", "trajectory returned"])
p("S17", "The solve starts from the path's own initial guess",
  "When solving starts, the solver's starting point passes through every waypoint guess pose at that waypoint's sample, and is the one this generator's builder described at construction, whatever other generators are being built or run at the same time and whether or not earlier attempts failed.",
  ["schedules", "fault_sequences", "inputs"],
  "all builder call sequences and interval counts, under concurrent construction and failed attempts",
  TESTS + "Linspace is tested at one point; nothing checks the assembled guess.",
  [GEN, BLD, "include/trajopt/util/GenerateLinearInitialGuess.hpp"],
  [("CalculateInitialGuess / ApplyInitialGuess", GEN)], [], ["variable values when Solve begins"])
p("S18", "A path described through the Rust interface is the path that was described",
  "Every call of the Rust-facing path builder (drivetrain, bumpers, waypoints, guess points, interval counts, waypoint and segment constraints, circle and polygon obstacles) describes exactly what its documentation and its C++ counterpart say, with every argument in its place: whatever point the solver chooses among those the resulting problem permits obeys all of them at the samples they name, trajectories that obey them with room to spare are not excluded, and the solve starts from the guesses given. No order or repetition of calls crashes.",
  ["inputs", "configurations", "schedules"],
  "all sequences of calls of the Rust-facing builder, with every admissible answer of the solver",
  TESTS + "no test reaches this layer and the Rust half has no tests.",
  ["src/lib.rs", "src/RustFFI.cpp", "src/RustFFI.hpp"],
  [("argument forwarding", "src/lib.rs"), ("conversion of Rust values to builder calls", "src/RustFFI.cpp")], [],
  ["problem and starting point received by the solver", "trajectory returned"])
p("S19", "Nothing but the solver's verdict or a cancellation ends a solve",
  "A generation lets the solver work as long as it needs: no time limit and no iteration limit below the solver's own ends it, whether it takes thousands of iterations or days, whatever the clocks do and whatever other generations run. A solver that cannot bring its error down to the promised 1e-4 (0.1 mm) is reported as a failure, never as a success. Diagnostic output is switched on exactly when it is asked for and changes nothing else.",
  ["schedules", "fault_sequences", "histories"],
  "all durations and iteration counts of solves, stalls, slow callbacks, wall clock jumps and final errors of the solver",
  TESTS + "no test runs a solve, and none could wait for a slow one.",
  [GEN, FFI],
  [("solver configuration", GEN)], [], ["configuration and exit of the solver", "values returned by Generate / generate"])
p("S21", "Between guess points the solve starts from straight lines and short turns",
  "Between one waypoint and the next, the starting point handed to the solver visits the guess points given for that segment, all of them and in order whenever the segment has enough samples, and runs between consecutive guess points in equal steps, straight in position and along the shorter arc in heading, for all headings (however many turns they have accumulated), distances, numbers of guess points and interval counts, also after failed attempts to construct the generator and while others are being built.",
  ["inputs", "configurations", "fault_sequences", "schedules"],
  "all guess points, headings and interval counts, under concurrent construction and failed attempts",
  TESTS + "Linspace is tested at one point; AngleLinspace and the assembled guess not at all.",
  ["include/trajopt/util/GenerateLinearInitialGuess.hpp", "include/trajopt/util/TrajoptUtil.hpp", BLD, GEN],
  [("GenerateLinearInitialGuess", "include/trajopt/util/GenerateLinearInitialGuess.hpp"), ("AngleLinspace", "include/trajopt/util/TrajoptUtil.hpp")], [],
  ["variable values when Solve begins"])
p("S24", "Whatever path is described, the problem posed is one the solver can begin with",
  "For every path described with finite numbers of an ordinary size, for a robot whose wheels have a radius, nothing in the problem posed for it is infinite or not a number at the starting point handed to the solver, nor at any finite point the solver visits later: cost, equality and inequality constraints all evaluate to finite numbers, because a solver that meets anything else gives up without a trajectory. This includes outlines that repeat a corner, lines that are only points, modules that share a position, waypoints, guesses, obstacles and points to face that coincide, limits of zero and headings of any size, for any number of modules, waypoints and intervals, and when other generators are built and run at the same time.",
  ["inputs", "configurations", "schedules"],
  "all finite path descriptions, and all finite points a solver may visit",
  TESTS + "no test evaluates a posed problem.",
  ["include/trajopt/constraint/detail/LinePointDistance.hpp", "include/trajopt/constraint/LinePointConstraint.hpp", "include/trajopt/constraint/PointLineConstraint.hpp", BLD, GEN],
  [("LinePointSquaredDistance", "include/trajopt/constraint/detail/LinePointDistance.hpp"), ("bound on the time steps", GEN)], [],
  ["constraints evaluated when Solve begins and at its iterates"])
# not claimed
p("S20", "Geometry types implement rotation, translation and pose algebra",
  "Rotations, translations and poses compose, invert and project as elements of the plane's rigid motions for all values.",
  ["inputs"], "all finite inputs", TESTS + "sampled inputs only.",
  ["include/trajopt/geometry/Rotation2.hpp", "include/trajopt/geometry/Translation2.hpp", "include/trajopt/geometry/Pose2.hpp"],
  [("operators", "include/trajopt/geometry/Rotation2.hpp")])
p("S22", "Module order does not matter",
  "The order in which swerve modules are listed changes neither the admissible trajectories nor the optimum.",
  ["configurations"], "all permutations of all module lists", TESTS + "no test builds a drivetrain.",
  [GEN, "include/trajopt/drivetrain/SwerveDrivetrain.hpp"], [("per-module loops", GEN)])
p("S23", "Trajectory data round-trips through serialisation",
  "Trajectories, poses and drivetrains survive JSON serialisation and deserialisation on the Rust side unchanged.",
  ["inputs"], "all field values", TESTS + "no test serialises.",
  [RS], [("serde derives", RS)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
