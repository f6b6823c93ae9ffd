// C27 force limits
#include "rb.h"
#include "crowd.h"
//@ bound 1 to 3 bodies, 1 to 3 limited rows, 1 to 2 sub-steps, 1 to 2 steps with limits changed in between; the real limited Gauss-Seidel solver with 1 to 3 sweeps from any start; states, masses, limits, time step, tolerances arbitrary reals; one fixed wiring of 20 bodies with 20 constraints (300 with 140: multipliers at one of the limits), any multipliers inside the limits, the large system fresh or after earlier steps with other values, fewer elements or a reset; the last of 5, 9 and 17 sub-steps, and of 66, 130 and 257 (multipliers at a limit); frames 599 to 601 of a system
//@ stub c27_any: constraint values and solver answers (any multipliers inside the limits passed to the solver) are stand-ins; the other entries use the library's own constraints and limited solver
//@ entry c27_any need=within
//@ entry c27_friction need=within
//@ entry c27_drive need=within
//@ entry c27_clutch need=within
//@ entry c27_link need=within
//@ entry c27_history need=within
//@ entry c27_two need=within budget=60
//@ entry c27_crowd need=within
//@ entry c27_many need=within
//@ entry c27_long need=within
//@ entry c27_frames need=within
//@ entry c27_hundreds need=within
//@ entry c27_sweeps thorough need=within budget=500
static void attach(Constraint &c, int a, int b, RigidBody *rb) { c.m_bodies[0] = &rb[a]; if (c.m_bodyCount == 2) c.m_bodies[1] = &rb[b]; }
struct Rig {
    OptimizedNsvRigidBodySystem sys; GaussSeidelSleSolver gs; RigidBody rb[3]; B6 q[3];
    Rig(int n, int sweeps) {
        sys.initialize(&gs);
        gs.m_maxIterations = sweeps;
        gs.m_minDelta = v_real("tol");
        for (int i = 0; i < n; ++i) { symBody(rb[i], q[i], i, n > 1); sys.addRigidBody(&rb[i]); }
    }
    // the system asserts that the solver succeeded: unsuccessful runs stop there
    void run(double dt, int steps) { v_allow_abort(1); sys.process(dt, steps); v_allow_abort(0); }
};
static void within(double x, double lo, double hi) { v_le(lo, x, "within"); v_le(x, hi, "within"); }
extern "C" {
// any constraint, any multiplier the solver may give within the limits it was given
void c27_any() {
    OptimizedNsvRigidBodySystem sys; AnySolver as(true); as.clamp = true;
    sys.initialize(&as);
    RigidBody rb[2]; B6 q[2];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i, true); sys.addRigidBody(&rb[i]); }
    struct Lim : Constraint {
        double lo[3], hi[3]; int calls = 0;
        Lim(int r, int b) : Constraint(r, b) {}
        void calculate(Output *o, SystemState *) override {
            *o = Output();
            for (int r = 0; r < m_constraintCount; ++r) {
                lo[r] = sym("lo", r, calls, m_bodyCount); hi[r] = sym("hi", r, calls, m_bodyCount);
                o->limits[r][0] = lo[r]; o->limits[r][1] = hi[r];
                for (int b = 0; b < m_bodyCount; ++b) o->J[r][3 * b + r] = 1 - 2 * b;
            }
            ++calls;
        }
    } c(v_choice("rows", 1, 3), 2), d(v_choice("rows1", 1, 2), 1);
    int s = v_choice("slot", 0, 1);
    attach(c, s, 1 - s, rb); attach(d, 1, 0, rb);
    Lim *l[2] = {&c, &d};
    int first = v_choice("first", 0, 1);
    sys.addConstraint(l[first]); sys.addConstraint(l[1 - first]);
    double h = v_real("h"); v_assume(h > 0);
    for (int st = 0; st < 2; ++st) {
        int steps = v_choice("steps", 1, 2);
        sys.process(h * steps, steps);
        for (int j = 0; j < 2; ++j)
            for (int r = 0; r < l[j]->getConstraintCount(); ++r) within(reported(*l[j], r, 0, r), l[j]->lo[r], l[j]->hi[r]);
    }
}
void c27_friction() {
    Rig t(1, v_choice("sweeps", 1, 2));
    RotationFrictionConstraint f;
    f.setBody(&t.rb[0]); f.m_minTorque = v_real("lo"); f.m_maxTorque = v_real("hi");
    v_assume(f.m_minTorque <= f.m_maxTorque);
    t.sys.addConstraint(&f);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.run(dt, v_choice("steps", 1, 2));
    within(f.F_t[0][0], f.m_minTorque, f.m_maxTorque);
    if (v_choice("exact", 0, 1)) return;
    v_eq(f.F_x[0][0], 0, "axis"); v_eq(f.F_y[0][0], 0, "axis");
}
void c27_drive() {
    Rig t(1, v_choice("sweeps", 1, 2));
    ConstantRotationConstraint f;
    f.setBody(&t.rb[0]); f.m_minTorque = v_real("lo"); f.m_maxTorque = v_real("hi"); f.m_rotationSpeed = v_real("w");
    v_assume(f.m_minTorque <= f.m_maxTorque);
    t.sys.addConstraint(&f);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.run(dt, 1);
    within(f.F_t[0][0], f.m_minTorque, f.m_maxTorque);
    within((t.rb[0].v_theta - t.q[0].v[2]) * t.rb[0].I, f.m_minTorque * dt, f.m_maxTorque * dt);
}
void c27_clutch() {
    Rig t(2, v_choice("sweeps", 1, 2));
    ClutchConstraint f;
    int s = v_choice("slot", 0, 1);
    f.setBody1(&t.rb[s]); f.setBody2(&t.rb[1 - s]); f.m_minTorque = v_real("lo"); f.m_maxTorque = v_real("hi");
    v_assume(f.m_minTorque <= f.m_maxTorque);
    t.sys.addConstraint(&f);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.run(dt, 1);
    within(f.F_t[0][1], f.m_minTorque, f.m_maxTorque);
    within((t.rb[1 - s].v_theta - t.q[1 - s].v[2]), f.m_minTorque * dt, f.m_maxTorque * dt);
}
// centre-to-centre and eccentric link, per axis
void c27_link() {
    Rig t(2, 1);
    LinkConstraint f;
    int s = v_choice("slot", 0, 1);
    f.setBody1(&t.rb[s]); f.setBody2(&t.rb[1 - s]);
    f.m_maxForce = v_real("max"); v_assume(f.m_maxForce >= 0);
    if (v_choice("ecc", 0, 1)) { f.setLocalPosition1(1, 0); t.rb[s].theta = 0; t.rb[1 - s].theta = 0; f.setLocalPosition2(0, 2); }
    else t.rb[0].theta = t.rb[1].theta = 0;
    t.sys.addConstraint(&f);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.run(dt, 1);
    for (int b = 0; b < 2; ++b) { within(f.F_x[0][b], -f.m_maxForce, f.m_maxForce); within(f.F_y[1][b], -f.m_maxForce, f.m_maxForce); }
}
// limits changed between steps, and solver memory from other systems
void c27_history() {
    Rig t(1, 1);
    RotationFrictionConstraint f;
    f.setBody(&t.rb[0]);
    t.sys.addConstraint(&f);
    double dt = v_real("dt"); v_assume(dt > 0);
    for (int st = 0; st < 2; ++st) {
        f.m_minTorque = v_realn("lo", st); f.m_maxTorque = v_realn("hi", st);
        v_assume(f.m_minTorque <= f.m_maxTorque);
        if (v_choice("twoSub", 0, 1)) t.run(2 * dt, 2); else t.run(dt, 1);
        within(f.F_t[0][0], f.m_minTorque, f.m_maxTorque);
    }
}
// coupled rows: friction on one of two clutched bodies
static void two(int sweeps) {
    Rig t(2, sweeps);
    ClutchConstraint c; RotationFrictionConstraint f;
    c.setBody1(&t.rb[0]); c.setBody2(&t.rb[1]); f.setBody(&t.rb[1]);
    c.m_minTorque = v_real("clo"); c.m_maxTorque = v_real("chi"); v_assume(c.m_minTorque <= c.m_maxTorque);
    f.m_minTorque = v_real("flo"); f.m_maxTorque = v_real("fhi"); v_assume(f.m_minTorque <= f.m_maxTorque);
    if (v_choice("order", 0, 1)) { t.sys.addConstraint(&f); t.sys.addConstraint(&c); } else { t.sys.addConstraint(&c); t.sys.addConstraint(&f); }
    double dt = v_real("dt"); v_assume(dt > 0);
    t.run(dt, 1);
    within(c.F_t[0][1], c.m_minTorque, c.m_maxTorque);
    within(f.F_t[0][0], f.m_minTorque, f.m_maxTorque);
}
void c27_two() { two(1); }
void c27_sweeps() { two(2); }
static void crowdWithin(Crowd &t) {
    for (int j = 0; j < t.nc; ++j)
        for (int r = 0; r < t.c[j]->getConstraintCount(); ++r)
            for (int b = 0; b < t.c[j]->m_bodyCount; ++b)
                for (int k = 0; k < 3; ++k) {
                    double J = t.c[j]->last.J[r][3 * b + k], F = reported(*t.c[j], r, b, k);
                    if (J > 0) within(F / J, t.c[j]->last.limits[r][0], t.c[j]->last.limits[r][1]);
                    else if (J < 0) within(F / J, t.c[j]->last.limits[r][0], t.c[j]->last.limits[r][1]);
                }
}
// each multiplier on one of the limits the solver was given
static void onEdge(Crowd &t, CrowdSolver &as) {
    int row = 0;
    for (int j = 0; j < t.nc; ++j)
        for (int r = 0; r < t.c[j]->getConstraintCount(); ++r, ++row)
            for (int b = 0; b < t.c[j]->m_bodyCount; ++b)
                for (int k = 0; k < 3; ++k) v_eq(reported(*t.c[j], r, b, k), t.c[j]->last.J[r][3 * b + k] * t.c[j]->last.limits[r][row & 1 ? 0 : 1], "within");
    v_assert(row == as.m, "within");
}
// many limited rows on many bodies: each report within its own row's limits
void c27_crowd() {
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(true); as.clamp = true;
    sys.initialize(&as);
    Crowd t(20, 20, true);
    t.enter(sys, v_choice("past", 0, 3), true, as.calls);
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h, 1);
    crowdWithin(t);
}
// the last of many sub-steps
void c27_many() {
    static const int N[3] = {5, 9, 17};
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(true); as.clamp = true;
    sys.initialize(&as);
    int few = v_choice("few", 0, FEWS - 1);
    Crowd t(FEW_NB[few], FEW_NC[few], true);
    t.enter(sys, v_choice("past", 0, 3), true, as.calls);
    int steps = N[v_choice("steps", 0, 2)];
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h * steps, steps);
    crowdWithin(t);
}
// very many sub-steps
void c27_long() {
    static const int N[3] = {66, 130, 257};
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(true); as.edge = true;
    sys.initialize(&as);
    int few = v_choice("few", 0, FEWS - 1);
    Crowd t(FEW_NB[few], FEW_NC[few], true);
    t.enter(sys, v_choice("past", 0, 2), true, as.calls);
    int steps = N[v_choice("steps", 0, 2)];
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h * steps, steps);
    onEdge(t, as);
}
// hundreds of frames into the system's life
void c27_frames() {
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(true); as.clamp = true;
    sys.initialize(&as);
    Crowd t(4, 3, true);
    t.enter(sys, v_choice("past", 4, 6), true, as.calls);
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h, 1);
    crowdWithin(t);
}
// hundreds of bodies and rows, each multiplier on one of the limits the solver was given
void c27_hundreds() {
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(true); as.edge = true;
    sys.initialize(&as);
    Crowd t(300, 140, true);
    t.enter(sys, v_choice("past", 0, 3), true, as.calls);
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h, 1);
    onEdge(t, as);
}
}
