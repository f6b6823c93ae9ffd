// C39 constraints do no work of their own
#include "mech.h"
//@ bound 3 bodies at any slots with one or two constraints of any of the nine kinds, arbitrary forces on all bodies, velocity-level system, no positional correction: energy of the step exact up to the solver's own residual, multipliers arbitrary; both systems: power of the reported forces; the library's solvers end to end: one limited brake, clutch or neutral gear (also after a step with other limits or engaged), two brakes and clutches sharing a body (1 to 2 sweeps, concrete inertias, for 2 sweeps concrete limits or none), exact elimination; 1 to 2 steps; all other values arbitrary reals
//@ stub equation solver (c39_energy, c39_pair, c39_power): arbitrary multipliers
//@ entry c39_energy need=energy
//@ entry c39_pair need=energy budget=200
//@ entry c39_power need=power
//@ entry c39_brake need=energy
//@ entry c39_coast need=energy
//@ entry c39_released need=energy branch-ms=150
//@ entry c39_sweeps need=energy branch-ms=100
//@ entry c39_exact need=energy
static double kinetic(const B6 *q, int n) { double e = 0; for (int i = 0; i < n; ++i) for (int c = 0; c < 3; ++c) e += q[i].m[c] * q[i].v[c] * q[i].v[c] / 2; return e; }
struct Rig {
    AnySolver as; Machine mc; RigidBody rb[3]; B6 q[3], u[3], w[3]; Cons cs[2]; AnyForce af; int k[2], a[2], b[2], count; double h;
    Rig(int kind, int n) : as(false), mc(kind, &as), af(0, 3), count(n) {
        static const char *tag[2] = { "P", "Q" };
        for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
        for (int j = 0; j < count; ++j) {
            k[j] = v_choice("kind", 0, N_CON - 1);
            int s = j ? v_choice("slots2", 0, 2) * 2 + 1 : v_choice("slots", 0, 5);
            if (bodiesOf(k[j]) == 1) v_assume(s < 3);
            a[j] = s % 3; b[j] = (a[j] + 1 + s / 3) % 3;
            setup(cs[j], k[j], tag[j]);
            cs[j].bodies(k[j], &rb[a[j]], &rb[b[j]]);
            mc.sys().addConstraint(&cs[j].get(k[j]));
        }
        mc.sys().addForceGenerator(&af);
        h = v_real("h"); v_assume(h > 0);
        mc.n.m_biasFactor = 0;
        mc.sys().process(h, 1);
        for (int i = 0; i < 3; ++i) {
            takeBody(rb[i], u[i]);
            // under the forces alone
            w[i] = q[i];
            w[i].v[0] += h * af.fx[i] / q[i].m[0]; w[i].v[1] += h * af.fy[i] / q[i].m[1]; w[i].v[2] += h * af.t[i] / q[i].m[2];
        }
    }
};
static void energy(int count) {
    Rig r(NSV_SYS, count);
    // the constraints take out exactly the energy of the velocity change they cause
    B6 c[3];
    for (int i = 0; i < 3; ++i) { c[i] = r.u[i]; for (int x = 0; x < 3; ++x) c[i].v[x] = r.u[i].v[x] - r.w[i].v[x]; }
    double slack = 0;
    for (int j = 0, row = 0; j < count; ++j) for (int x = 0; x < rowsOf(r.k[j]); ++x, ++row) {
        double bias = r.k[j] == CONSTROT ? sym(j ? "Q" : "P", 0, 0, 0) : 0;
        slack += r.as.lam[row] * (r.as.A(row) - r.as.b[row] - bias);
    }
    v_eq(kinetic(r.w, 3) - kinetic(r.u, 3), kinetic(c, 3) - slack, "energy");
}
extern "C" {
void c39_energy() { energy(1); }
void c39_pair() { energy(2); }
// the reported forces work only as far as the constraint is being violated
void c39_power() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    Rig r(kind, 1);
    int k = r.k[0];
    double z[3] = { 0, 0, 0 };
    Target T = target(k, "P", r.q[r.a[0]], r.q[r.b[0]], r.q[r.a[0]], r.q[r.b[0]], z, z);
    Constraint &c = r.cs[0].get(k);
    for (int row = 0; row < rowsOf(k); ++row) {
        double p = 0;
        for (int x = 0; x < bodiesOf(k); ++x) for (int y = 0; y < 3; ++y) p += reported(c, row, x, y) * r.q[x ? r.b[0] : r.a[0]].v[y];
        v_eq(p, (kind == NSV_SYS ? 1 / r.h : 1) * r.as.lam[row] * T.V[row], "power");
    }
}
// limited brakes and clutches whose torque may act either way never add energy
static void limited(bool forces, int steps, bool before = false) {
    GaussSeidelSleSolver gs; gs.m_maxIterations = 1; gs.m_minDelta = INFINITY;
    Machine mc(NSV_SYS, &gs);
    RigidBody rb[2]; B6 q[2], u[2]; Cons cs;
    static const int kinds[3] = { FRICTION, CLUTCH, GEAR };
    int k = kinds[v_choice("kind", 0, 2)], s = v_choice("slot", 0, 1);
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    double lo = v_real("lo"), hi = v_real("hi");
    v_assume(lo <= 0 && hi >= 0);
    cs.rf.m_minTorque = cs.cl.m_minTorque = lo; cs.rf.m_maxTorque = cs.cl.m_maxTorque = hi;
    cs.ge.m_ratio = v_real("ratio"); cs.ge.m_neutral = true;
    cs.bodies(k, &rb[s], &rb[1 - s]);
    mc.sys().addConstraint(&cs.get(k));
    AnyForce af(0, 2);
    if (forces) mc.sys().addForceGenerator(&af);
    double h = v_real("h"); v_assume(h > 0);
    if (before) {
        // a step with other limits, or the gear engaged
        cs.rf.m_minTorque = cs.cl.m_minTorque = v_real("lo0"); cs.rf.m_maxTorque = cs.cl.m_maxTorque = v_real("hi0");
        cs.ge.m_neutral = false;
        v_assume(v_real("lo0") <= v_real("hi0"));
        mc.sys().process(h, 1);
        for (int i = 0; i < 2; ++i) takeBody(rb[i], q[i]);
        cs.rf.m_minTorque = cs.cl.m_minTorque = lo; cs.rf.m_maxTorque = cs.cl.m_maxTorque = hi; cs.ge.m_neutral = true;
    }
    mc.sys().process(steps * h, steps);
    double e0 = 0, e1 = 0;
    for (int i = 0; i < 2; ++i) {
        takeBody(rb[i], u[i]);
        double w = q[i].v[2] + (forces ? h * af.t[i] / q[i].m[2] : 0);
        // only rotation is touched
        v_eq(u[i].v[0], q[i].v[0] + (forces ? h * af.fx[i] / q[i].m[0] : 0), "linear"); v_eq(u[i].v[1], q[i].v[1] + (forces ? h * af.fy[i] / q[i].m[1] : 0), "linear");
        e0 += q[i].m[2] * w * w; e1 += q[i].m[2] * u[i].v[2] * u[i].v[2];
    }
    v_le(e1, e0, "energy");
}
void c39_brake() { limited(true, 1); }
void c39_released() { limited(v_choice("forces", 0, 1) != 0, 1, true); }
void c39_coast() { limited(false, v_choice("steps", 1, 2)); }
// two limited rows sharing a shaft, solved by few sweeps from rest
void c39_sweeps() {
    GaussSeidelSleSolver gs; gs.m_maxIterations = v_choice("sweeps", 1, 2); gs.m_minDelta = INFINITY;
    if (gs.m_maxIterations == 2) gs.m_minDelta = 0.1;
    v_allow_abort(1);
    Machine mc(NSV_SYS, &gs);
    RigidBody rb[2];
    double I[2] = { 2, 3 }, w[2];
    for (int i = 0; i < 2; ++i) { rb[i].m = 1; rb[i].I = I[i]; w[i] = rb[i].v_theta = v_realn("w", i); mc.sys().addRigidBody(&rb[i]); }
    RotationFrictionConstraint rf; ClutchConstraint cl;
    rf.setBody(&rb[v_choice("slot", 0, 1)]); cl.setBody1(&rb[0]); cl.setBody2(&rb[1]);
    // more sweeps: concrete limits, or none
    int big = v_choice("limits", 0, 2);
    double T = gs.m_maxIterations == 1 ? v_real("T") : big == 2 ? INFINITY : big ? 1 : 4, D = gs.m_maxIterations == 1 ? v_real("D") : big == 2 ? INFINITY : big ? 2 : 1;
    v_assume(gs.m_maxIterations == 2 || big == 0);
    v_assume(T >= 0 && D >= 0);
    rf.m_minTorque = -T; rf.m_maxTorque = T; cl.m_minTorque = -D; cl.m_maxTorque = D;
    if (v_choice("order", 0, 1)) { mc.sys().addConstraint(&rf); mc.sys().addConstraint(&cl); } else { mc.sys().addConstraint(&cl); mc.sys().addConstraint(&rf); }
    mc.sys().process(1, 1);
    v_le(I[0] * rb[0].v_theta * rb[0].v_theta + I[1] * rb[1].v_theta * rb[1].v_theta, I[0] * w[0] * w[0] + I[1] * w[1] * w[1], "energy");
    v_reach("energy");
}
// joints solved exactly: a clutch and a gear, a body on a line or at a point or linked to another by its centre, from any motion
void c39_exact() {
    GaussianEliminationSleSolver ge;
    Machine mc(NSV_SYS, &ge);
    mc.n.m_biasFactor = 0;
    RigidBody rb[2]; B6 q[2], u[2]; Cons cs;
    int k = v_choice("kind", 0, N_CON - 2), s = v_choice("slot", 0, 1);
    v_assume(k != ROLL);
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    setup(cs, k, "P");
    if (k == FIXPOS) cs.fp.setLocalPosition(0, 0);
    if (k == LINK) { cs.lk.setLocalPosition1(0, 0); cs.lk.setLocalPosition2(0, 0); }
    if (k == LINE) { cs.li.m_local_x = cs.li.m_local_y = 0; v_assume(cs.li.m_dx * cs.li.m_dx + cs.li.m_dy * cs.li.m_dy > 0.01); }
    cs.bodies(k, &rb[s], &rb[1 - s]);
    mc.sys().addConstraint(&cs.get(k));
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    B6 c[2];
    for (int i = 0; i < 2; ++i) { takeBody(rb[i], u[i]); c[i] = u[i]; for (int x = 0; x < 3; ++x) c[i].v[x] -= q[i].v[x]; }
    v_eq(kinetic(q, 2) - kinetic(u, 2), kinetic(c, 2), "energy");
}
}
