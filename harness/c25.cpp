// C25 velocity-level step
#include "crowd.h"
#include "world.h"
//@ bound 3 bodies, up to 3 constraints / 4 rows (5 thorough) of every row and body count and attachment, 1 to 3 sub-steps; fixed wirings of 1 to 40 bodies with 0 to 40 constraints and of 300 bodies with 140 constraints (every third body possibly taken out of the system again) (concrete Jacobians), the system fresh or after earlier steps with other values, fewer elements or a reset; states, masses, forces, residuals, Jacobians, biases, limits, bias factor, time step and multipliers arbitrary reals; 9 to 14 bodies with 3 to 10 constraints (concrete Jacobians) through the Gaussian solver; 5, 18 and 36 sub-steps of one frame on 5 bodies and 4 constraints with concrete Jacobians, every sub-step checked; 1 to 600 sub-steps of one body with one force and one row against the closed form; frames 599 to 602 of a system
//@ stub constraints, force generators and (in c25_equation, c25_mix, c25_substeps) the equation solver are stand-ins returning arbitrary values; c25_gauss and c25_real use the library's own
//@ entry c25_equation need=equation,impulse,pose,limits
//@ entry c25_mix need=equation,impulse,pose,limits
//@ entry c25_substeps need=equation,impulse,pose,limits,time
//@ entry c25_gauss need=residual
//@ entry c25_real need=residual
//@ entry c25_time need=time
//@ entry c25_crowd need=equation,impulse,pose,limits
//@ entry c25_gauss_crowd need=residual,impulse
//@ entry c25_many need=equation,impulse,pose,limits
//@ entry c25_long need=impulse,pose
//@ entry c25_frames need=equation,impulse,pose,limits
//@ entry c25_hundreds need=equation,impulse,pose,limits
//@ entry c25_deep thorough need=equation,impulse,pose,limits
struct Sys25 {
    OptimizedNsvRigidBodySystem sys;
    RigidBody rb[4]; B6 q[4]; int nb;
    Sys25(int n) : nb(n) { for (int i = 0; i < n; ++i) { symBody(rb[i], q[i], i); sys.addRigidBody(&rb[i]); } sys.m_biasFactor = v_real("beta"); }
};
static void attach(Constraint &c, int a, int b, RigidBody *rb) { c.m_bodies[0] = &rb[a]; if (c.m_bodyCount == 2) c.m_bodies[1] = &rb[b]; }
// q is the state before the last sub-step of length h
static void verify(Sys25 &t, AnyRow **c, int nc, AnyForce &f, AnySolver &as, double h, double beta) {
    double dv[4][3], z1[4][3];
    for (int i = 0; i < t.nb; ++i) {
        B6 z; takeBody(t.rb[i], z);
        for (int k = 0; k < 3; ++k) { z1[i][k] = z.v[k]; dv[i][k] = z.v[k] - t.q[i].v[k]; v_eq(z.p[k], t.q[i].p[k] + h * z.v[k], "pose"); v_eq(z.m[k], t.q[i].m[k], "mass-kept"); }
    }
    double R[4][3];
    for (int i = 0; i < t.nb; ++i) { R[i][0] = h * f.fx[i]; R[i][1] = h * f.fy[i]; R[i][2] = h * f.t[i]; }
    int row = 0;
    for (int j = 0; j < nc; ++j)
        for (int r = 0; r < c[j]->getConstraintCount(); ++r, ++row) {
            double res = h * c[j]->last.v_bias[r] + beta * c[j]->last.C[r];
            for (int b = 0; b < c[j]->m_bodyCount; ++b) {
                int i = c[j]->m_bodies[b]->index;
                for (int k = 0; k < 3; ++k) {
                    res += h * c[j]->last.J[r][3 * b + k] * z1[i][k];
                    R[i][k] += c[j]->last.J[r][3 * b + k] * as.lam[row];
                }
            }
            v_eq(res, h * (as.A(row) - as.b[row]), "equation");
            if (as.supportsLimits()) { v_eq(as.lo[row], c[j]->last.limits[r][0] * h, "limits"); v_eq(as.hi[row], c[j]->last.limits[r][1] * h, "limits"); }
        }
    v_assert(as.m == row && as.n == 3 * t.nb, "rows");
    v_assert(as.limited == (as.supportsLimits() ? as.calls : 0), "limits");
    for (int i = 0; i < t.nb; ++i) for (int k = 0; k < 3; ++k) v_eq(dv[i][k] * t.q[i].m[k], R[i][k], "impulse");
}
static void mix(int n0, int n1, int n2, int w, int s, bool lim) {
    Sys25 t(3);
    AnySolver as(lim); AnyForce f(0, 3);
    t.sys.initialize(&as);
    t.sys.addForceGenerator(&f);
    AnyRow c0(0, n0, 2), c1(1, n1, w & 1 ? 2 : 1), c2(2, n2, w & 2 ? 2 : 1);
    attach(c0, s % 3, (s + 1 + s / 3) % 3, t.rb);
    attach(c1, (s + 1) % 3, s % 3, t.rb);
    attach(c2, 2, s % 2, t.rb);
    t.sys.addConstraint(&c0); t.sys.addConstraint(&c1); t.sys.addConstraint(&c2);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.sys.process(dt, 1);
    AnyRow *l[] = {&c0, &c1, &c2};
    verify(t, l, 3, f, as, dt, v_real("beta"));
    v_eq(t.sys.timeElapsed(), dt, "time");
    v_eq(t.sys.m_biasFactor, v_real("beta"), "beta-kept");
}
extern "C" {
// large systems
void c25_crowd() {
    int z = v_choice("size", 0, SIZES - 1);
    bool big = z == 0;
    Crowd t(SIZE_NB[z], SIZE_NC[z], big);
    if (z == 6) t.f.none();
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(v_choice("limited", 0, 1));
    sys.initialize(&as);
    t.enter(sys, v_choice("past", 0, 3), big, as.calls);
    if (z == 1 && v_choice("leave", 0, 1)) t.leave(sys);
    sys.m_biasFactor = v_real("beta");
    double dt = v_real("dt"); v_assume(dt > 0);
    sys.process(dt, 1);
    t.verify(as, true, dt, v_real("beta"), "impulse");
    v_assert(as.limited == (as.supportsLimits() ? as.calls : 0), "limits");
}
// many sub-steps, each of them checked
void c25_many() {
    static const int N[3] = {5, 18, 36};
    int few = v_choice("few", 0, FEWS - 1);
    Crowd t(FEW_NB[few], FEW_NC[few], true);
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(v_choice("limited", 0, 1));
    sys.initialize(&as);
    t.enter(sys, v_choice("past", 0, 3), true, as.calls);
    sys.m_biasFactor = 0.375;
    int steps = N[v_choice("steps", 0, 2)];
    double h = v_real("h"); v_assume(h > 0);
    double t0 = sys.timeElapsed();
    Watch w(t, as, true, h, 0.375, "impulse", sys);
    sys.process(h * steps, steps);
    t.verify(as, true, h, 0.375, "impulse");
    v_assert(w.n == steps, "sub-steps");
    v_assert(as.limited == (as.supportsLimits() ? as.calls : 0), "limits");
    v_eq(sys.timeElapsed() - t0, h * steps, "time");
}
// hundreds of sub-steps in one frame
void c25_long() {
    bool row = v_choice("row", 0, 1);
    OptimizedNsvRigidBodySystem sys; SteadySolver as(v_choice("limited", 0, 1));
    sys.initialize(&as);
    Steady t(sys, row);
    int steps = LONG[v_choice("steps", 0, 4)];
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h * steps, steps);
    t.verify(steps, h, row, 1, "impulse", "pose");
    v_assert(as.calls == steps && t.f.calls == steps && t.c.calls == (row ? steps : 0), "sub-steps");
}
// hundreds of frames into the system's life
void c25_frames() {
    Crowd t(4, 3, false);
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(v_choice("limited", 0, 1));
    sys.initialize(&as);
    t.enter(sys, v_choice("past", 4, 6), false, as.calls);
    sys.m_biasFactor = v_real("beta");
    double dt = v_real("dt"); v_assume(dt > 0);
    for (int k = 0; k < 2; ++k) {
        sys.process(dt, 1);
        t.verify(as, true, dt, v_real("beta"), "impulse");
        t.renew(false, as.calls);
    }
}
// hundreds of bodies and rows
void c25_hundreds() {
    Crowd t(300, 140, true);
    int past = v_choice("past", 0, 4);
    OptimizedNsvRigidBodySystem sys; CrowdSolver as(past & 1);
    sys.initialize(&as);
    t.enter(sys, past & 3, true, as.calls);
    if (past == 4) t.leave(sys);
    sys.m_biasFactor = 0.375;
    double dt = v_real("dt"); v_assume(dt > 0);
    sys.process(dt, 1);
    t.verify(as, true, dt, 0.375, "impulse");
}
void c25_equation() {
    Sys25 t(3);
    AnySolver as(v_choice("limited", 0, 1)); AnyForce f(0, 3);
    t.sys.initialize(&as);
    t.sys.addForceGenerator(&f);
    AnyRow c(0, v_choice("rows", 1, 3), v_choice("bodies", 1, 2));
    int a = v_choice("a", 0, 2), b = v_choice("b", 0, 2);
    v_assume(a != b);
    attach(c, a, b, t.rb);
    t.sys.addConstraint(&c);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.sys.process(dt, 1);
    AnyRow *l[] = {&c};
    verify(t, l, 1, f, as, dt, v_real("beta"));
    v_assert(as.calls == 1 && f.calls == 1, "evaluated-once");
}
void c25_mix() { mix(1, 2, 1, v_choice("shape", 0, 3), v_choice("slots", 0, 5), v_choice("limited", 0, 1)); }
void c25_deep() { mix(2, 1, 2, v_choice("shape", 0, 3), v_choice("slots", 0, 5), v_choice("limited", 0, 1)); }
// several sub-steps: the last one is observed exactly, its start state coming from a run with one sub-step less and the same multipliers
void c25_substeps() {
    int steps = v_choice("steps", 2, 3);
    bool lim = v_choice("limited", 0, 1);
    double h = v_real("h"); v_assume(h > 0);
    Sys25 t(2), u(2);
    AnySolver as(lim), us(lim); AnyForce f(0, 2), uf(0, 2);
    t.sys.initialize(&as); u.sys.initialize(&us);
    t.sys.addForceGenerator(&f); u.sys.addForceGenerator(&uf);
    AnyRow c(0, 1, 2), d(0, 1, 2);
    attach(c, 0, 1, t.rb); attach(d, 0, 1, u.rb);
    t.sys.addConstraint(&c); u.sys.addConstraint(&d);
    t.sys.process(h * steps, steps);
    u.sys.process(h * (steps - 1), steps - 1);
    v_eq(t.sys.timeElapsed(), h * steps, "time");
    v_assert(as.calls == steps && f.calls == steps && c.calls == steps, "evaluated-each");
    for (int i = 0; i < 2; ++i) takeBody(u.rb[i], t.q[i]);
    AnyRow *l[] = {&c};
    verify(t, l, 1, f, as, h, v_real("beta"));
}
void c25_gauss() {
    Sys25 t(2);
    GaussianEliminationSleSolver g; AnyForce f(0, 2);
    t.sys.initialize(&g);
    t.sys.addForceGenerator(&f);
    AnyRow c(0, 1, v_choice("bodies", 1, 2));
    int a = v_choice("a", 0, 1);
    attach(c, a, 1 - a, t.rb);
    t.sys.addConstraint(&c);
    double dt = v_real("dt"); v_assume(dt > 0);
    v_allow_abort(1);
    t.sys.process(dt, 1);
    v_allow_abort(0);
    double res = dt * c.last.v_bias[0] + v_real("beta") * c.last.C[0];
    for (int b = 0; b < c.m_bodyCount; ++b) {
        int i = c.m_bodies[b]->index;
        B6 z; takeBody(t.rb[i], z);
        for (int k = 0; k < 3; ++k) res += dt * c.last.J[0][3 * b + k] * z.v[k];
    }
    v_eq(res, 0, "residual");
}
// clutch, driven rotation and gravity through the library's own exact solver
void c25_real() {
    Sys25 t(3);
    GaussianEliminationSleSolver g; GravityForceGenerator gr;
    t.sys.initialize(&g);
    gr.m_g = v_real("g");
    t.sys.addForceGenerator(&gr);
    ClutchConstraint cl; FixedRotationConstraint fr;
    int p = v_choice("perm", 0, 2);
    RigidBody *x = &t.rb[p], *y = &t.rb[(p + 1) % 3], *z = &t.rb[(p + 2) % 3];
    cl.setBody1(x); cl.setBody2(y);
    fr.setBody(z); fr.m_rotation = v_real("rot");
    t.sys.addConstraint(&fr); t.sys.addConstraint(&cl);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.sys.process(dt, 1);
    v_eq(x->v_theta, y->v_theta, "residual");
    B6 &qz = t.q[(p + 2) % 3];
    v_eq(dt * z->v_theta + v_real("beta") * (qz.p[2] - fr.m_rotation), 0, "residual");
    for (int i = 0; i < 3; ++i) { v_eq(t.rb[i].v_x, t.q[i].v[0], "forces"); v_eq(t.rb[i].v_y, t.q[i].v[1] - dt * gr.m_g, "forces"); }
    v_eq(x->v_theta * x->I + y->v_theta * y->I, t.q[p].v[2] * x->I + t.q[(p + 1) % 3].v[2] * y->I, "momentum");
}
void c25_time() {
    OptimizedNsvRigidBodySystem sys; AnySolver as(true);
    sys.initialize(&as);
    RigidBody b; B6 q; symBody(b, q, 0);
    if (v_choice("body", 0, 1)) sys.addRigidBody(&b);
    v_eq(sys.timeElapsed(), 0, "time");
    double t = 0;
    for (int i = 0; i < 3; ++i) {
        double dt = v_posn("dt", i);
        sys.process(dt, v_choice("steps", 1, 3));
        t += dt;
        v_eq(sys.timeElapsed(), t, "time");
    }
}
// a large coupled system through the library's own exact solver
void c25_gauss_crowd() {
    static const int NB[3] = {12, 14, 9}, NC[3] = {8, 10, 3};
    int z = v_choice("size", 0, 2);
    Crowd t(NB[z], NC[z], true);
    GaussianEliminationSleSolver g; Machine mc(NSV_SYS, &g);
    int none = 0;
    v_allow_abort(1);  // the earlier life may well be unsolvable
    t.enter(mc.sys(), v_choice("past", 0, 3), true, none);
    v_allow_abort(0);
    mc.n.m_biasFactor = 0.5;
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    for (int j = 0; j < t.nc; ++j) for (int r = 0; r < t.c[j]->getConstraintCount(); ++r) v_eq(t.residual(j, r, true, h, 0.5), 0, "residual");
    t.balance(h, "impulse");
}
}
