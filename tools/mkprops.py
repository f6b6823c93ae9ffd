#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                  "observe_at": list(observe), "hook_needed": None}})

M, S = "include/matrix.h", "src/matrix.cpp"
SP = "include/sparse_matrix.h"
ST = "src/system_state.cpp"
RBS = "src/rigid_body_system.cpp"
GEN = "src/generic_rigid_body_system.cpp"
NSV = "src/optimized_nsv_rigid_body_system.cpp"
CON = ["src/fixed_position_constraint.cpp", "src/fixed_rotation_constraint.cpp", "src/link_constraint.cpp", "src/line_constraint.cpp", "src/rolling_constraint.cpp"]
VCON = ["src/constant_rotation_constraint.cpp", "src/clutch_constraint.cpp", "src/rotation_friction_constraint.cpp", "src/simple_gear_constraint.cpp"]

p("C01", "Dense matrix operations compute their mathematical definition",
  "Every dense-matrix operation (multiply, transpose-multiply, transpose, left/right diagonal scaling, scalar scaling, add, subtract, negate, component product, multiply-accumulate in both forms, dot product, squared magnitude, comparison within a tolerance) yields exactly its textbook definition, entry by entry, for operands of every compatible shape. The target takes the result's shape whatever shape or content it had before, the operands are left unchanged, and the element-wise operations are also correct when the target is one of the operands. Comparison reports equality only if the shapes agree and every pair of entries differs by at most the tolerance.",
  "all matrix shapes, all entry values, all previous shapes of the target, in exact arithmetic",
  "Tests multiply a few 2x2 to 4x3 literals into fresh targets; several operations (madd, pmadd, componentMultiply, dot, negate, subtract, equals) have no test at all.",
  [M, S], [("loops over rows and columns", S)], observe=["Matrix::get after each operation"])
p("C02", "Dense matrix storage is sound under any reuse history",
  "Whatever sequence of initialise, resize, fill from an array, copy, row swap, write and destroy a matrix goes through, it stays inside its own storage, entries read back what was last written (fills and copies follow the logical row order even after row swaps, vector reductions too), initialising sets every entry, and destroying releases everything and leaves a matrix that can be used again.",
  "all sequences of storage operations over all sizes",
  "Tests only initialise each matrix once and destroy it once; shrinking, regrowing, reuse after destroy and row swaps followed by fills are never exercised.",
  [M, S], [("capacity tracking in resize", S + ": Matrix::resize"), ("row pointer table", M + ": fastRowSwap")],
  over=("histories", "inputs"), state=[("row table and data block", "logical rows may be permuted over the data block", M)])
p("C03", "Sparse block matrix operations agree with the dense matrix it denotes",
  "For every block layout in which a row's occupied entries name distinct blocks, with entries left empty or not, a sparse matrix denotes one dense matrix, and expansion, transposed expansion, product with a matrix or vector, transposed product with a vector, product with another sparse matrix's transpose, and left/right diagonal scaling all equal the corresponding dense computation. Results do not depend on the target's previous shape or content.",
  "all block layouts, block indices, strides and entry values, all target histories, in exact arithmetic",
  "Tests use three hand-written 3-row layouts with the scales all zero and both entries always occupied.",
  [SP], [("block index table with an empty marker", SP)], state=[("block table", "block column of each entry or 'empty'", SP)])
p("C04", "Sparse matrix storage is sound under any reuse history",
  "Whatever sequence of initialise, resize, block and value writes, emptying an entry, and destroy a sparse matrix goes through, it stays inside its own storage, initialising leaves every entry empty and zero, values and blocks read back what was last written, and destroying releases everything and leaves a matrix that can be initialised again at any size.",
  "all sequences of storage operations over all sizes",
  "Tests initialise each sparse matrix once; none destroys and reuses one.",
  [SP], [("capacity tracking in resize/destroy", SP)], over=("histories", "inputs"))
p("C05", "Gaussian elimination returns the exact solution or no success",
  "Whenever the Gaussian elimination solver reports success, the result x has one entry per equation and satisfies (J W J^T) x = b exactly (in exact arithmetic), whatever pivoting was needed. It never reports success for a singular system, and its answer depends only on J, W and b, not on the initial guess, the previous content of the result, or earlier solves of any size with the same solver object; J, W and b are left unchanged.",
  "all sparse J, diagonal W and right-hand sides, all solver histories",
  "Two fixed well-conditioned systems are tested, both solved by a fresh solver and without ever exercising singularity, zero pivots, or size changes.",
  ["src/gaussian_elimination_sle_solver.cpp"], [("partial pivoting and back substitution", "GaussianEliminationSleSolver::solve")], over=("inputs", "histories"))
p("C06", "Gauss-Seidel solve: correct sweeps, start value and stop test",
  "The unlimited Gauss-Seidel solver starts from the supplied previous solution (or from zero when there is none of matching length), and each sweep replaces the unknowns in order by the value that solves their own equation of (J W J^T) x = b given the latest values of the others. It reports success only if the last sweep changed every unknown by less than the configured fraction of max(0.001, its magnitude before the sweep), reports failure if that never happens within the configured number of sweeps, and never reports success with a non-finite result; J, W and b are left unchanged.",
  "all systems, start vectors, tolerances and sweep limits",
  "The only active test constructs the solver; its two numerical tests are commented out.",
  ["src/gauss_seidel_sle_solver.cpp"], [("sweep with in-place update and relative change test", "GaussSeidelSleSolver::solveIteration")])
p("C07", "Limited Gauss-Seidel: projected sweeps inside the limits",
  "The limited Gauss-Seidel solver never returns, on success or failure after at least one sweep, an unknown outside its [min, max] limits, for any input values whatsoever including infinities and NaN in the equations. Each sweep sets an unknown to its own equation's solution clamped to the limits, starting from the previous solution of matching length, otherwise from the result vector's own content if that already has the right length, otherwise from zero, and success means the last sweep changed every unknown by less than the configured fraction of max(0.001, its magnitude before the sweep).",
  "all systems, limits with min <= max, start vectors, tolerances and sweep limits, all IEEE values for the containment part",
  "No test calls the limited solver.",
  ["src/gauss_seidel_sle_solver.cpp"], [("clamped sweep", "GaussSeidelSleSolver::solveIteration with limits")])
p("C08", "Conjugate gradient: success means a small residual",
  "Whenever the conjugate gradient solver reports success, the returned x is finite, has one entry per equation and its residual b - (J W J^T) x is, entry by entry, at most max(max-error x |b|, min-error) in magnitude (in exact arithmetic); it never reports success on a breakdown or an inconsistent system. For a positive definite system of n equations it needs at most n iterations in exact arithmetic from any initial guess, a supplied guess that is already good enough is returned unchanged, and the answer does not depend on earlier solves with the same solver object.",
  "all systems, initial guesses, tolerances and solver histories",
  "One fixed 4x4 system is tested with a null initial guess.",
  ["src/conjugate_gradient_sle_solver.cpp"], [("residual recurrence and componentwise stop test", "ConjugateGradientSleSolver::solve")], over=("inputs", "histories"))
p("C09", "Single-stage integrators apply their documented update to every body",
  "One step of the explicit Euler integrator advances every body's position and angle by its old velocity times dt and every velocity by its acceleration times dt; one step of the velocity-first (NSV) integrator advances velocities first and positions with the new velocities. Each completes in exactly one stage, touches nothing else of the dynamic state (accelerations, forces, masses, reactions), and treats bodies independently, for any number of bodies including zero.",
  "all states, accelerations, step sizes and body counts, in exact arithmetic",
  "Euler tests use one body and fixed values; the velocity-first integrator has no test.",
  ["src/euler_ode_solver.cpp", "src/nsv_ode_solver.cpp"], [("per-body update loop", "solve()")])
p("C10", "The Runge-Kutta integrator is the classical fourth-order method",
  "With accelerations that depend on position and velocity, one step of the RK4 integrator equals the classical four-stage Runge-Kutta update of every body's position, angle and velocities; in particular for linear dynamics it agrees with the exact flow's Taylor expansion through fourth order in dt, and constant acceleration is integrated exactly. It evaluates exactly four stages per step at offsets 0, dt/2, dt/2 and dt, bodies do not influence each other through the integrator, and consecutive steps (also with a different number of bodies, or after an abandoned step) start afresh.",
  "all states, step sizes, body counts and acceleration laws, all step histories",
  "Tests only integrate constant acceleration, for which wrong stage formulas are also exact, with one body.",
  ["src/rk4_ode_solver.cpp"], [("stage machine, stage weights", "Rk4OdeSolver::step / solve")], over=("inputs", "histories"))
p("C11", "System state copies are faithful and storage is sound",
  "Copying one system state to another reproduces its counts and every per-body and per-reaction array exactly, independently of what the destination held before and without disturbing the source; resizing guarantees room for the requested bodies and constraint rows. Every sequence of resize, copy and destroy stays inside allocated storage and releases everything when destroyed.",
  "all sequences of resize/copy/destroy over all counts, all contents",
  "Tests resize a state to one body and one row once; copies between differing sizes, shrinking and zero counts never occur.",
  [ST], [("resize keeps or reallocates arrays", "SystemState::resize"), ("copy", "SystemState::copy")], over=("histories", "inputs"))
p("C12", "Local and world frames are inverse rigid transformations",
  "For every body pose, mapping a local point to the world and back returns the point (and conversely), the map is a rotation by the body's angle plus its position (distances and orientation preserved, the local origin maps to the body position), and the system-state form and the rigid-body form of the map agree; mapping changes no body or state. The kinetic energy reported for a body is (m |v|^2 + I w^2) / 2.",
  "all poses, points, velocities and masses, in exact arithmetic",
  "No test touches the frame maps or the energy.",
  ["src/rigid_body.cpp", ST], [("rotation by theta then translation", "localToWorld / worldToLocal")])
p("C13", "Point velocities and applied forces are dual to the point map",
  "The velocity reported for a body-fixed point is the time derivative of its world position under the body's linear and angular velocity. Applying a force at a body-fixed point adds to that body's accumulated force and torque exactly the amounts for which force dot point velocity equals accumulated force dot body velocity plus torque times angular velocity, accumulates over repeated calls, and leaves all other bodies and all poses and velocities alone.",
  "all poses, velocities, points, forces and body indices, in exact arithmetic",
  "No test touches these functions.",
  [ST], [("lever arm from the world point", "SystemState::velocityAtPoint / applyForce")])
p("C14", "Position constraint Jacobians are the gradients of their residuals",
  "For the fixed-position, fixed-rotation, link, line and rolling constraints, the Jacobian entries reported for each row are exactly the partial derivatives of that row's residual with respect to x, y and angle of each attached body, for every pose and every parameter setting, and whichever bodies of the system they are attached to.",
  "all poses, anchor points, directions, radii and target values",
  "Only the rolling constraint is tested, at 10 random poses with unit direction and unit radius and a finite-difference tolerance of 1e-4.",
  CON, [("hand-derived derivatives", "calculate()")])
p("C15", "Constraint Jacobian rates are the time derivatives of the Jacobians",
  "For every constraint type, the Jacobian rate reported for each row is exactly the time derivative of that row's Jacobian along the current linear and angular velocities of the attached bodies, for every pose, velocity and parameter setting.",
  "all poses, velocities and parameter settings",
  "Only the rolling constraint is tested, with one velocity component non-zero at a time, unit direction and unit radius.",
  CON + VCON, [("hand-derived time derivatives", "calculate()")])
p("C16", "Position constraint residuals measure the advertised geometry",
  "Residuals are: fixed position, the world position of the anchor minus the target point; fixed rotation, the angle minus the target; link, the world position of the first anchor minus the second; line, the cross product of the line direction with the anchor's offset from the line point (zero exactly when the anchor is on the line); rolling, for a unit direction, zero second residual exactly when the rolling body's centre is one radius from the base line on its left side and an unchanging first residual exactly when the rolling body rolls on the base line without slipping, also when the base itself moves or turns. Configured stiffness and damping are passed through (the rolling row without correction reports zero for both).",
  "all poses, velocities, parameters",
  "No test states what a residual should be.",
  CON, [("world anchors minus targets", "calculate()")])
p("C17", "Rotation constraints constrain the advertised relative speed",
  "The clutch row's velocity is the second body's angular velocity minus the first's, the gear row's is the first's minus ratio times the second's, the rotational friction and constant-rotation rows' is the body's own; none of them acts on linear motion, has a position residual, or reports a velocity bias except constant rotation, whose bias is its configured speed. Their reported limits are exactly the configured minimum and maximum torque (gear: unlimited when engaged, exactly zero when in neutral), with configured stiffness and damping passed through.",
  "all states, ratios, speeds and torque limits",
  "None of these constraints is tested.",
  VCON, [("constant rows", "calculate()")])
p("C18", "Constraint evaluation is complete, pure and repeatable",
  "Evaluating any constraint writes every output of each of its rows (residual, Jacobian and rate for every attached body, velocity bias, both limits, stiffness, damping), so no value left in the output buffer by an earlier evaluation survives in them. It modifies neither the state, the bodies nor the constraint, so evaluating twice gives the same answer. Constraints without configured limits report the full double range, and a link's limits are plus and minus its maximum force; a new constraint has no bodies attached and zero reported forces.",
  "all states, parameters, all previous contents of the output buffer",
  "Tests read only the residual and Jacobians of one constraint type.",
  CON + VCON + ["src/constraint.cpp", "include/constraint.h"], [("explicit assignment of each output", "calculate()"), ("noLimits", "include/constraint.h")])
p("C19", "Two-body constraints obey action and reaction",
  "For any row multiplier, the forces a link or rolling constraint puts on its two bodies sum to zero, and when the constraint is satisfied their total moment about any point is zero too; a clutch puts equal and opposite torques on its bodies, and a gear puts torques in ratio 1 : -ratio. A satisfied link, rolling or clutch constraint never transmits anything along motions of its two bodies together as one rigid body.",
  "all poses, parameters and multipliers",
  "No test looks at reaction forces.",
  ["src/link_constraint.cpp", "src/rolling_constraint.cpp", "src/clutch_constraint.cpp", "src/simple_gear_constraint.cpp"], [("Jacobian columns of the two bodies", "calculate()")])
p("C20", "Gravity and static forces act exactly as configured",
  "Gravity adds exactly -m g to the vertical force of every body and nothing else; a static force generator adds its configured force at its configured body-fixed point to its one body, with the corresponding moment, and nothing to any other body. Both accumulate on top of forces already present and leave poses and velocities alone.",
  "all states, masses, configured forces and points, all body counts",
  "No force generator is tested.",
  ["src/gravity_force_generator.cpp", "src/static_force_generator.cpp"], [("accumulation into f_x, f_y, t", "apply()")])
p("C21", "Springs are conservative up to damping and obey action and reaction",
  "A spring with two bodies in the system adds equal and opposite forces at its two anchors; for anchors at least 0.01 apart the elastic part is minus the gradient of the spring energy it reports, and the damping part is the damping coefficient times the relative anchor velocity and never adds energy; closer than that the elastic part is dropped. An end attached to a body that is not in the system is held at that body's own pose and is neither moved nor does it corrupt anything else; a spring with a missing body does nothing.",
  "all poses, velocities, anchors, stiffness, rest length, either or both ends outside the system",
  "No test uses a spring.",
  ["src/spring.cpp"], [("axis force and relative velocity", "Spring::apply"), ("energy", "Spring::energy")])
p("C22", "The speed motor applies a bounded, balanced torque",
  "The motor's torque is its gain times the speed error between the two bodies minus its damping times their relative angular acceleration, limited to plus or minus the maximum torque for every input value; it is added to the driven body and subtracted from the base body, or only applied to the driven body when the base is not in the system, and nothing else is changed.",
  "all speeds, accelerations, gains and non-negative torque limits",
  "No test uses the motor.",
  ["src/constant_speed_motor.cpp"], [("clamp", "ConstantSpeedMotor::apply")])
p("C23", "Registries stay consistent under every add/remove history",
  "After any sequence of additions and removals (each removal of a registered element, in any order), the system's bodies, constraints and force generators are exactly those added and not removed, each once; every registered body's index is its position in the registry, a removed body is marked as not in a system, counts (including total constraint rows) match, and a reset empties all three registries.",
  "all histories of add, remove and reset",
  "No test adds or removes anything.",
  [RBS], [("swap-with-last removal and index update", "remove*()")], over=("histories",), state=[("index", "position of a registered element", "RigidBody::index, Constraint::m_index, ForceGenerator::m_index")])
p("C24", "Acceleration-level stepping satisfies its constraint equation",
  "In one evaluation by the generic system with an exact solver, the accelerations a of all bodies satisfy J a + J' v + ks C + kd J v = 0 for every constraint row and M a = F + J^T lambda for the external forces F, whatever mix of one- and two-body constraints is attached to which bodies in which order; the integrator's result is what is written back to the bodies.",
  "all states, masses, forces, constraint rows (arbitrary residuals, Jacobians and rates) up to the stated sizes",
  "No test runs a rigid-body system at all.",
  [GEN, RBS], [("right-hand side assembly, reaction accumulation, write-back", "GenericRigidBodySystem::process / processConstraints")])
p("C25", "Velocity-level stepping satisfies its constraint equation",
  "After one step of the NSV system with an exact solver, the new velocities v' satisfy J v' + v_bias + (bias factor / dt) C = 0 for every row evaluated at the old pose, differ from the force-only velocities by M^-1 J^T lambda only, positions advance by v' dt, and elapsed time by dt; a solver that supports limits is given each row's force limits times the sub-step, any other solver none, and both are given the same equations.",
  "all states, masses, forces, constraint rows (arbitrary residuals, Jacobians, biases, limits), bias factors and time steps up to the stated sizes",
  "No test runs a rigid-body system at all.",
  [NSV, RBS], [("right-hand side assembly, impulse scaling, write-back", "OptimizedNsvRigidBodySystem::process / processConstraints")])
p("C26", "Reported constraint forces are the forces that acted",
  "After a step of either system, the force and torque each constraint reports for each of its rows and each of its bodies in the system is the row multiplier times that body's Jacobian, so that for every body mass times acceleration equals external forces plus the sum of all forces reported on it (for the RK4 integrator: their stage-weighted mean over the last sub-step). Rows and bodies a constraint does not have report zero.",
  "all states, constraints, forces, step sizes, integrators, sub-step counts",
  "No test reads reported forces.",
  [GEN, NSV, "src/rk4_ode_solver.cpp"], [("copy-out loops", "process() / propagateResults()")])
p("C27", "Constraint force limits are honoured",
  "With the limited Gauss-Seidel solver in the NSV system, the multiplier of every constraint row in every sub-step (reported force per unit Jacobian) lies within that row's configured force limits, so a link never pulls harder than its maximum force per axis and friction, clutch and drive torques stay within theirs, also when several sub-steps are taken and whether or not the limits change between steps.",
  "all states, limits, step sizes, sub-step counts and solver histories",
  "No test uses limits.",
  [NSV, "src/gauss_seidel_sle_solver.cpp"], [("limits times dt, multiplier divided by dt", "processConstraints")], over=("inputs", "histories"))
p("C28", "A step depends only on what is in the system now",
  "With direct solvers, the outcome of a step (poses, velocities, reported forces) is a function of the currently registered bodies, constraints and force generators and dt alone: a system that earlier held more, fewer or other bodies, constraints or force generators, or was stepped before, behaves exactly like a newly built one in the same configuration, including when all constraints or all bodies were removed.",
  "all histories of stepping, adding and removing up to the stated length, all values",
  "No test runs a rigid-body system at all, let alone reuses one.",
  [RBS, GEN, NSV, ST, S, SP], [("scratch matrices and state reused between steps", "m_iv, m_state")], over=("histories", "inputs"))
p("C29", "Sub-stepping equals repeated stepping",
  "Stepping once by dt with n sub-steps gives the same poses, velocities and reported forces as stepping n times by dt/n, for force generators that depend on pose and velocity only and an exact solver; forces and constraints are re-evaluated at every sub-step.",
  "all states, dt, n up to the stated size",
  "No test runs a rigid-body system at all.",
  [GEN, NSV], [("sub-step loop", "process()")])
p("C30", "Bodies outside the system act as an immovable world",
  "A rotation constraint attached on one side to a body that is not registered with the system constrains the other body as if that side had infinite mass and zero velocity; stepping neither changes the unregistered body nor reads or writes outside the system's storage, and other bodies are unaffected.",
  "all states and parameters, either side unregistered, both systems",
  "No test attaches a constraint to an unregistered body.",
  [GEN, NSV, RBS], [("index -1 marks a body outside the system", "RigidBody::index")])
p("C31", "Unconnected bodies do not influence each other",
  "A body with no constraint and no force keeps its velocity and moves uniformly, whatever happens to other bodies; and bodies not connected through constraints or force generators evolve exactly as they would in separate systems.",
  "all states, masses, other bodies' constraints and forces, up to the stated sizes",
  "No test runs a rigid-body system at all.",
  [GEN, NSV], [("block layout of mass, force and Jacobian", "processConstraints")])
p("C32", "Internal interactions conserve momentum",
  "A step in which bodies interact only through links, clutches and springs leaves the total linear momentum unchanged, and with gravity alone in addition changes it by exactly total weight times dt; with bodies joined by a clutch only, total angular momentum is unchanged; both hold with and without active force limits and for every masses and stiffness.",
  "all states, masses and parameters, in exact arithmetic",
  "No test runs a rigid-body system at all.",
  [GEN, NSV, "src/link_constraint.cpp", "src/clutch_constraint.cpp", "src/spring.cpp"], [("action/reaction through J^T lambda", "processConstraints")])
p("C33", "Systems, solvers and states release everything and never abort in valid use",
  "Building a system with any mix of solver and integrator, stepping it any number of times, changing its population in between, and destroying it neither aborts, reads uninitialised memory, accesses memory outside live storage, nor leaks; this includes systems that are never stepped, are empty, or have no constraints.",
  "all lifecycles up to the stated length, all mixes of components",
  "No test creates a rigid-body system.",
  [RBS, GEN, NSV, ST, "src/gauss_seidel_sle_solver.cpp", "src/gaussian_elimination_sle_solver.cpp", "src/conjugate_gradient_sle_solver.cpp"], [("destructors", "~GenericRigidBodySystem and others")], over=("histories", "configurations"))
p("C34", "Profiling figures are averages of the recorded frames",
  "Each profiling query returns the arithmetic mean of that phase's time over the last at most 600 frames actually processed, zero before the first frame, and each phase's time is taken from that phase's own clock interval, summed over the frame's sub-steps.",
  "all clock readings (non-decreasing), all numbers of frames",
  "No test reads the profiling figures.",
  [RBS, GEN, NSV], [("ring buffer with unused marker", "findAverage, m_frameIndex")], over=("histories", "inputs"))
p("C35", "Registration order and slot do not matter",
  "With an exact solver, permuting the order in which bodies, constraints or force generators are registered does not change any body's motion or any constraint's reported forces, and a constraint acts on the bodies it is attached to whatever slots they occupy, in systems with hundreds of bodies as well.",
  "all permutations up to the stated size, all slots up to the stated count, all values",
  "No test runs a rigid-body system at all.",
  [RBS, GEN, NSV, SP], [("index used as block column", "setBlock")], over=("configurations", "inputs"))
p("C36", "Forces, constraints and observers see the true state",
  "At every evaluation during a step, the state handed to force generators and constraints covers at least all registered bodies and constraint rows, and holds the first row of every registered constraint, at each body's index that body's mass and the pose and velocity reached so far (the body's own at the start of the step, afterwards the integrator's stage value), the acceleration found by the evaluation before (zero at the start of the step), and the stage's time offset (the sub-step for single-stage integrators; 0, h/2, h/2, h for Runge-Kutta); a generator finds there exactly the forces other generators have added in the same evaluation. After the step the system's state agrees with the bodies' poses and velocities, with the reported constraint forces at each constraint's rows, and with the forces and accelerations of the last evaluation.",
  "all states, masses, forces, multipliers, step sizes, integrators and populations up to the stated sizes, after any of the stated histories",
  "No test evaluates a force or constraint inside a step.",
  [RBS, GEN, NSV, "src/rk4_ode_solver.cpp", "src/euler_ode_solver.cpp", "src/nsv_ode_solver.cpp"], [("state filled from the bodies, forces cleared before each evaluation, stage values", "populateSystemState, processForces, OdeSolver::step")], over=("inputs", "histories"))
p("C37", "Mechanisms do what their constraints say",
  "After a velocity-level step under any external forces, every attached constraint's own demand is met by the new motion (exactly, up to the residual the equation solver left in that row): an anchored point, a point on a line, a link's two anchors and a rolling contact move against their present error at the correction rate (bias factor per step) and otherwise not at all in the constrained direction; a held angle keeps the fraction (1 - bias factor) of its error per sub-step; a driven body turns at its set speed (with the library's sign), clutched bodies at equal speed, geared ones in the set ratio, and a braked body not at all. When a brake, drive or clutch would need more than its torque limits allow, it changes the (relative) speed by exactly the limiting torque times the step. In the acceleration-level system each constrained quantity's second time derivative is -ks times its error minus kd times its rate. All this is measured on the bodies' motion and the mechanism's geometry, not on the equations.",
  "all poses, velocities, masses, anchors, targets, ratios, gains, limits, forces, step sizes and multipliers; any one or two of the nine constraint kinds on any of the bodies",
  "No test steps a system with a constraint and looks at the motion.",
  [NSV, GEN, "src/link_constraint.cpp", "src/fixed_position_constraint.cpp", "src/rolling_constraint.cpp", "src/line_constraint.cpp", "src/clutch_constraint.cpp"], [("right side, impulse and integration", "processConstraints, NsvOdeSolver::solve, EulerOdeSolver::solve")])
p("C38", "The physics has no preferred place, direction, speed or handedness",
  "Two worlds that differ only by a shift of everything, by everything moving along uniformly (where nothing is anchored to the world), by a rotation of everything through any angle, or by mirroring left and right, with the constraints' and forces' parameters transformed accordingly, hand the solver equivalent equations (the residual of correspondingly transformed multipliers is the correspondingly transformed residual) and, given such multipliers, end the step in states, and report constraint forces, that differ by the same transformation. Weight keeps its direction under shift, motion and mirroring.",
  "all states, masses, parameters, forces, multipliers, step sizes, angles, shifts and velocities of the frame; any one or two of the nine constraint kinds, springs, motors, static forces and gravity, all three integrations",
  "No test compares two systems.",
  [GEN, NSV, "src/rolling_constraint.cpp", "src/link_constraint.cpp", "src/line_constraint.cpp", "src/spring.cpp", "src/system_state.cpp"], [("constraint and force geometry", "calculate, apply, localToWorld")])
p("C39", "Constraints do no work of their own",
  "In a velocity-level step without positional correction the constraints take out exactly the kinetic energy of the velocity change they cause, measured against the same step under the external forces alone (up to the residual left by the solver, and the drive's work for a driven rotation): they never add energy when solved exactly. Brakes, clutches and neutral gears whose torque limits lie on both sides of zero never add kinetic energy, with one row solved by the limited solver or with several rows after any number of sweeps from a cold start. The power of a constraint's reported forces is the multiplier times the rate at which the constraint is being violated, hence zero for motion the constraint permits, in both systems.",
  "all poses, velocities, masses, parameters, forces, limits, multipliers and step sizes; any one or two of the nine constraint kinds on any of three bodies",
  "No test computes an energy.",
  [NSV, GEN, "src/gauss_seidel_sle_solver.cpp", "src/gaussian_elimination_sle_solver.cpp"], [("impulse, reported forces, clamping", "processConstraints, solveWithLimits")])
p("C40", "Units of measurement do not matter",
  "A world described in other units of length, time and mass (positions, velocities, masses, inertias, anchors, targets, gains, stiffnesses, limits, forces and the step converted accordingly) hands the solver the converted equations and limits and, for the converted multipliers, ends the step in the converted state and reports the converted forces: no quantity is compared with, added to or bounded by a constant of the code's own. (Excluded: the drop-out distance of springs, which is a length, and the solvers' tolerances.)",
  "all unit changes, states, masses, parameters, forces, multipliers and step sizes; any one or two of the nine constraint kinds, motors, static forces, weight and springs, all three integrations",
  "No test compares two systems.",
  [NSV, GEN, "src/link_constraint.cpp", "src/rolling_constraint.cpp", "src/constant_speed_motor.cpp", "src/spring.cpp"], [("every formula of a step", "processConstraints, solve, calculate, apply")])
p("C41", "The two ends of an interaction are interchangeable",
  "Exchanging the two bodies of a link, clutch, spring or motor, together with their anchors (the clutch's limits and the motor's speed changing sign), leaves the motion and the force on each body as they were: the equations handed to the solver are the same up to the sign of the exchanged rows, with correspondingly exchanged limits. A gear equals the exchanged gear of the inverse ratio. A spring held by a body outside the system acts the same, and has the same energy, whichever end is outside.",
  "all states, masses, parameters, limits, forces, multipliers and step sizes; one or two elements between any of the bodies",
  "No test exchanges the ends of an element.",
  ["src/link_constraint.cpp", "src/clutch_constraint.cpp", "src/simple_gear_constraint.cpp", "src/spring.cpp", "src/constant_speed_motor.cpp", NSV, GEN], [("roles of the first and second body", "calculate, apply")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
