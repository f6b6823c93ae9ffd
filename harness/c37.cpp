// C37 mechanisms do what their constraints say
#include "mech.h"
//@ bound 3 bodies at any slots with one or two constraints of any of the nine kinds in either order (both systems), arbitrary forces on every body; poses, velocities, masses, anchors, targets, ratios, gains, limits, bias factor and step arbitrary reals; multipliers arbitrary, the claim being exact up to the solver's own residual in that row; 1 to 4 sub-steps for the targets; the library's Gaussian and Gauss-Seidel (one row) solvers end to end
//@ stub equation solver (c37_velocity, c37_acceleration, c37_pair): arbitrary multipliers
//@ entry c37_velocity need=row
//@ entry c37_acceleration need=row
//@ entry c37_pair need=row budget=200
//@ entry c37_turn need=angle,speed
//@ entry c37_place need=place
//@ entry c37_limits need=limited,momentum
static void run(int kind, int count) {
    AnySolver as(false);
    Machine mc(kind, &as);
    RigidBody rb[3]; B6 q[3], u[3]; Cons cs[2];
    const char *tag[2] = { "P", "Q" };
    int k[2], a[2], b[2];
    for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    for (int j = 0; j < count; ++j) {
        k[j] = v_choice("kind", 0, N_CON - 1);
        int s = j ? v_choice("slots2", 0, 2) * 2 + 1 : v_choice("slots", 0, 5);
        if (bodiesOf(k[j]) == 1) v_assume(s < 3);
        a[j] = s % 3; b[j] = (a[j] + 1 + s / 3) % 3;
        setup(cs[j], k[j], tag[j]);
        cs[j].bodies(k[j], &rb[a[j]], &rb[b[j]]);
        mc.sys().addConstraint(&cs[j].get(k[j]));
    }
    AnyForce af(0, 3);
    mc.sys().addForceGenerator(&af);
    double h = v_real("h"); v_assume(h > 0);
    double beta = v_real("beta");
    if (kind == NSV_SYS) mc.n.m_biasFactor = beta;
    mc.sys().process(h, 1);
    double acc[3][3];
    for (int i = 0; i < 3; ++i) { takeBody(rb[i], u[i]); for (int c = 0; c < 3; ++c) acc[i][c] = (u[i].v[c] - q[i].v[c]) / h; }
    int row = 0;
    for (int j = 0; j < count; ++j) {
        Target T = target(k[j], tag[j], q[a[j]], q[b[j]], u[a[j]], u[b[j]], acc[a[j]], acc[b[j]]);
        Target S = target(k[j], tag[j], q[a[j]], q[b[j]], q[a[j]], q[b[j]], acc[a[j]], acc[b[j]]);
        for (int r = 0; r < rowsOf(k[j]); ++r, ++row) {
            double residual = as.A(row) - as.b[row];
            if (kind == NSV_SYS) v_eq(T.V[r] + T.bias + beta / h * T.C[r], residual, "row");
            else v_eq(T.A[r] + T.ks[r] * T.C[r] + T.kd[r] * S.V[r], residual, "row");
        }
    }
    v_assert(as.m == row && as.calls == 1, "rows");
}
extern "C" {
void c37_velocity() { run(NSV_SYS, 1); }
void c37_acceleration() { run(GEN_EULER, 1); }
void c37_pair() { run(v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, 2); }
// rotations held, driven and coupled, by the library's own solvers, over several sub-steps and calls, under arbitrary forces
void c37_turn() {
    GaussianEliminationSleSolver ge; GaussSeidelSleSolver gs; gs.m_maxIterations = 1; gs.m_minDelta = INFINITY;
    bool limited = v_choice("limited", 0, 1) != 0;
    Machine mc(NSV_SYS, limited ? (SleSolver *)&gs : (SleSolver *)&ge);
    RigidBody rb[2]; B6 q[2]; Cons cs;
    static const int kinds[5] = { FIXROT, CONSTROT, CLUTCH, GEAR, FRICTION };
    int k = kinds[v_choice("kind", 0, 4)];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    int s = v_choice("slot", 0, 1);
    setup(cs, k, "P");
    // the library's own "no limit" is the largest double
    v_assume(!limited || k == CONSTROT || k == CLUTCH || k == FRICTION);
    cs.rf.m_maxTorque = cs.cr.m_maxTorque = cs.cl.m_maxTorque = INFINITY; cs.rf.m_minTorque = cs.cr.m_minTorque = cs.cl.m_minTorque = -INFINITY;
    cs.bodies(k, &rb[s], &rb[1 - s]);
    mc.sys().addConstraint(&cs.get(k));
    AnyForce af(0, 2);
    mc.sys().addForceGenerator(&af);
    double h = v_real("h"); v_assume(h > 0);
    double beta = v_real("beta");
    mc.n.m_biasFactor = beta;
    int steps = v_choice("steps", 1, 2), frames = v_choice("frames", 1, 2);
    double want = sym("P", 0, 0, 0), off = q[s].p[2] - want;
    for (int f = 0; f < frames; ++f) {
        mc.sys().process(steps * h, steps);
        for (int i = 0; i < steps; ++i) off *= 1 - beta;
        if (k == FIXROT) v_eq(rb[s].theta - want, off, "angle");
        if (k == CONSTROT) v_eq(rb[s].v_theta, -want, "speed");
        if (k == FRICTION) v_eq(rb[s].v_theta, 0, "speed");
        if (k == CLUTCH) v_eq(rb[0].v_theta, rb[1].v_theta, "speed");
        if (k == GEAR) v_eq(rb[s].v_theta, want * rb[1 - s].v_theta, "speed");
    }
}
// a body held at a point by its centre, two bodies held together by their centres, with forces on both
void c37_place() {
    GaussianEliminationSleSolver ge;
    Machine mc(NSV_SYS, &ge);
    RigidBody rb[2]; B6 q[2];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    int s = v_choice("slot", 0, 1), k = v_choice("kind", 0, 2);
    FixedPositionConstraint fp; LinkConstraint lk; LineConstraint li;
    double x = v_real("x"), y = v_real("y"), a = v_real("a"), b = v_real("b");
    if (k == 0) { fp.setBody(&rb[s]); fp.setLocalPosition(0, 0); fp.setWorldPosition(x, y); mc.sys().addConstraint(&fp); }
    if (k == 1) { lk.setBody1(&rb[s]); lk.setBody2(&rb[1 - s]); lk.setLocalPosition1(0, 0); lk.setLocalPosition2(0, 0); mc.sys().addConstraint(&lk); }
    if (k == 2) { v_assume(a * a + b * b > 0.01); li.setBody(&rb[s]); li.m_local_x = li.m_local_y = 0; li.m_p0_x = x; li.m_p0_y = y; li.m_dx = a; li.m_dy = b; mc.sys().addConstraint(&li); }
    AnyForce af(0, 2);
    mc.sys().addForceGenerator(&af);
    double h = v_real("h"); v_assume(h > 0);
    double beta = v_real("beta");
    mc.n.m_biasFactor = beta;
    int steps = v_choice("steps", 1, 2);
    mc.sys().process(steps * h, steps);
    double left = 1;
    for (int i = 0; i < steps; ++i) left *= 1 - beta;
    RigidBody &r = rb[s], &o = rb[1 - s]; B6 &p = q[s], &z = q[1 - s];
    if (k == 0) { v_eq(r.p_x - x, left * (p.p[0] - x), "place"); v_eq(r.p_y - y, left * (p.p[1] - y), "place"); }
    if (k == 1) { v_eq(r.p_x - o.p_x, left * (p.p[0] - z.p[0]), "place"); v_eq(r.p_y - o.p_y, left * (p.p[1] - z.p[1]), "place"); }
    if (k == 2) v_eq(a * (r.p_y - y) - b * (r.p_x - x), left * (a * (p.p[1] - y) - b * (p.p[0] - x)), "place");
}
// limited brakes, drives and clutches do as much of it as their torque allows
void c37_limits() {
    GaussSeidelSleSolver gs; gs.m_maxIterations = 1; gs.m_minDelta = INFINITY;
    Machine mc(NSV_SYS, &gs);
    RigidBody rb[2]; B6 q[2]; Cons cs;
    static const int kinds[3] = { FRICTION, CONSTROT, CLUTCH };
    int k = kinds[v_choice("kind", 0, 2)];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    int s = v_choice("slot", 0, 1);
    setup(cs, k, "P");
    double lo = v_real("lo"), hi = v_real("hi"), want = k == CONSTROT ? -sym("P", 0, 0, 0) : 0;
    v_assume(lo <= hi);
    cs.rf.m_minTorque = cs.cr.m_minTorque = cs.cl.m_minTorque = lo; cs.rf.m_maxTorque = cs.cr.m_maxTorque = cs.cl.m_maxTorque = hi;
    cs.bodies(k, &rb[s], &rb[1 - s]);
    mc.sys().addConstraint(&cs.get(k));
    AnyForce af(0, 2);
    mc.sys().addForceGenerator(&af);
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    RigidBody &r = rb[s], &o = rb[1 - s];
    // without the constraint
    double f = q[s].v[2] + h * af.t[s] / q[s].m[2], g = q[1 - s].v[2] + h * af.t[1 - s] / q[1 - s].m[2];
    double speed = k == CLUTCH ? g - f : f, end = k == CLUTCH ? o.v_theta - r.v_theta : r.v_theta;
    double ease = k == CLUTCH ? 1 / q[0].m[2] + 1 / q[1].m[2] : 1 / q[s].m[2];
    double least = speed + h * lo * ease, most = speed + h * hi * ease;
    v_eq(end, most < want ? most : least > want ? least : want, "limited");
    double torque = k == CLUTCH ? q[1 - s].m[2] * (o.v_theta - g) : q[s].m[2] * (r.v_theta - f);
    if (k == CLUTCH) v_eq(q[s].m[2] * (r.v_theta - f), -torque, "momentum"); else v_eq(o.v_theta, g, "momentum");
}
}
