// C24 acceleration-level step
#include "crowd.h"
#include "world.h"
//@ bound 3 bodies, up to 3 constraints / 4 rows of every row and body count (5 rows thorough), every attachment of them to the bodies; fixed wirings of 1 to 40 bodies with 0 to 40 constraints and of 300 bodies with 140 constraints (every third body possibly taken out of the system again) (concrete Jacobians), the system fresh or after earlier steps with other values, fewer elements or a reset; states, masses, forces, residuals, Jacobians, rates, stiffness, damping, time step and multipliers arbitrary reals; 9 to 14 bodies with 3 to 10 constraints (concrete Jacobians) through the Gaussian solver; 5, 18 and 36 sub-steps of one frame on 5 bodies and 4 constraints with concrete Jacobians, every sub-step checked; 1 to 600 sub-steps of one body with one force and one row against the closed form; frames 599 to 602 of a system
//@ stub constraints, force generators and (in c24_equation, c24_mix) the equation solver are stand-ins returning arbitrary values; c24_gauss and c24_real use the library's own
//@ entry c24_equation need=equation,newton,pose
//@ entry c24_mix need=equation,newton,pose
//@ entry c24_gauss need=residual
//@ entry c24_real need=residual
//@ entry c24_stages need=equation,write-back
//@ entry c24_crowd need=equation,newton,pose
//@ entry c24_gauss_crowd need=residual,newton
//@ entry c24_many need=equation,newton,pose
//@ entry c24_long need=newton,pose
//@ entry c24_frames need=equation,newton,pose
//@ entry c24_hundreds need=equation,newton,pose
//@ entry c24_deep thorough need=equation,newton,pose
//@ entry c24_gauss2 thorough need=residual
struct Sys24 {
    GenericRigidBodySystem sys; EulerOdeSolver eu;
    RigidBody rb[4]; B6 q[4]; int nb;
    Sys24(int n) : nb(n) { for (int i = 0; i < n; ++i) { symBody(rb[i], q[i], i); } }
};
// after one Euler step: dv = a dt
static void verify(Sys24 &t, AnyRow **c, int nc, AnyForce &f, AnySolver &as, double dt) {
    double dv[4][3];
    for (int i = 0; i < t.nb; ++i) {
        B6 z; takeBody(t.rb[i], z);
        for (int k = 0; k < 3; ++k) { dv[i][k] = z.v[k] - t.q[i].v[k]; v_eq(z.p[k], t.q[i].p[k] + dt * t.q[i].v[k], "pose"); v_eq(z.m[k], t.q[i].m[k], "mass-kept"); }
    }
    double R[4][3];
    for (int i = 0; i < t.nb; ++i) { R[i][0] = f.fx[i]; R[i][1] = f.fy[i]; R[i][2] = f.t[i]; }
    int row = 0;
    for (int j = 0; j < nc; ++j)
        for (int r = 0; r < c[j]->getConstraintCount(); ++r, ++row) {
            double res = c[j]->last.ks[r] * c[j]->last.C[r] * dt;
            for (int b = 0; b < c[j]->m_bodyCount; ++b) {
                int i = c[j]->m_bodies[b]->index;
                for (int k = 0; k < 3; ++k) {
                    res += c[j]->last.J[r][3 * b + k] * dv[i][k] + dt * (c[j]->last.J_dot[r][3 * b + k] + c[j]->last.kd[r] * c[j]->last.J[r][3 * b + k]) * t.q[i].v[k];
                    R[i][k] += c[j]->last.J[r][3 * b + k] * as.lam[row];
                }
            }
            // the residual is what the solver left over, hence zero for an exact one
            v_eq(res, dt * (as.A(row) - as.b[row]), "equation");
        }
    v_assert(as.m == row && as.n == 3 * t.nb, "rows");
    v_assert(as.calls == 1 && f.calls == 1, "evaluated-once");
    for (int i = 0; i < t.nb; ++i) for (int k = 0; k < 3; ++k) v_eq(dv[i][k] * t.q[i].m[k], dt * R[i][k], "newton");
}
static void attach(Constraint &c, int a, int b, RigidBody *rb) { c.m_bodies[0] = &rb[a]; if (c.m_bodyCount == 2) c.m_bodies[1] = &rb[b]; }
extern "C" {
// large systems
void c24_crowd() {
    int z = v_choice("size", 0, SIZES - 1);
    bool big = z == 0;
    Crowd t(SIZE_NB[z], SIZE_NC[z], big);
    if (z == 6) t.f.none();
    GenericRigidBodySystem sys; EulerOdeSolver eu; CrowdSolver as(false);
    sys.initialize(&as, &eu);
    t.enter(sys, v_choice("past", 0, 3), big, as.calls);
    if (z == 1 && v_choice("leave", 0, 1)) t.leave(sys);
    double dt = v_real("dt"); v_assume(dt > 0);
    sys.process(dt, 1);
    t.verify(as, false, dt, 0, "newton");
}
// many sub-steps, each of them checked
void c24_many() {
    static const int N[3] = {5, 18, 36};
    int few = v_choice("few", 0, FEWS - 1);
    Crowd t(FEW_NB[few], FEW_NC[few], true);
    GenericRigidBodySystem sys; EulerOdeSolver eu; CrowdSolver as(false);
    sys.initialize(&as, &eu);
    t.enter(sys, v_choice("past", 0, 3), true, as.calls);
    int steps = N[v_choice("steps", 0, 2)];
    double h = v_real("h"); v_assume(h > 0);
    Watch w(t, as, false, h, 0, "newton", sys);
    sys.process(h * steps, steps);
    t.verify(as, false, h, 0, "newton");
    v_assert(w.n == steps, "sub-steps");
}
// hundreds of sub-steps in one frame
void c24_long() {
    bool row = v_choice("row", 0, 1);
    GenericRigidBodySystem sys; EulerOdeSolver eu; SteadySolver as(false);
    sys.initialize(&as, &eu);
    Steady t(sys, row);
    int steps = LONG[v_choice("steps", 0, 4)];
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h * steps, steps);
    t.verify(steps, h, row, 0, "newton", "pose");
    v_assert(as.calls == steps && t.f.calls == steps && t.c.calls == (row ? steps : 0), "sub-steps");
}
// hundreds of frames into the system's life
void c24_frames() {
    Crowd t(4, 3, false);
    GenericRigidBodySystem sys; EulerOdeSolver eu; CrowdSolver as(false);
    sys.initialize(&as, &eu);
    t.enter(sys, v_choice("past", 4, 6), false, as.calls);
    double dt = v_real("dt"); v_assume(dt > 0);
    for (int k = 0; k < 2; ++k) {
        sys.process(dt, 1);
        t.verify(as, false, dt, 0, "newton");
        t.renew(false, as.calls);
    }
}
// hundreds of bodies and rows
void c24_hundreds() {
    Crowd t(300, 140, true);
    GenericRigidBodySystem sys; EulerOdeSolver eu; CrowdSolver as(false);
    sys.initialize(&as, &eu);
    int past = v_choice("past", 0, 4);
    t.enter(sys, past & 3, true, as.calls);
    if (past == 4) t.leave(sys);
    double dt = v_real("dt"); v_assume(dt > 0);
    sys.process(dt, 1);
    t.verify(as, false, dt, 0, "newton");
}
// one constraint of any shape on any slots
void c24_equation() {
    Sys24 t(3);
    AnySolver as(false); AnyForce f(0, 3);
    t.sys.initialize(&as, &t.eu);
    for (int i = 0; i < 3; ++i) t.sys.addRigidBody(&t.rb[i]);
    t.sys.addForceGenerator(&f);
    AnyRow c(0, v_choice("rows", 1, 3), v_choice("bodies", 1, 2));
    int a = v_choice("a", 0, 2), b = v_choice("b", 0, 2);
    v_assume(a != b);
    attach(c, a, b, t.rb);
    t.sys.addConstraint(&c);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.sys.process(dt, 1);
    AnyRow *l[] = {&c};
    verify(t, l, 1, f, as, dt);
}
// several constraints sharing bodies
static void mix(int rows0, int rows1, int rows2) {
    Sys24 t(3);
    AnySolver as(false); AnyForce f(0, 3);
    t.sys.initialize(&as, &t.eu);
    for (int i = 0; i < 3; ++i) t.sys.addRigidBody(&t.rb[i]);
    t.sys.addForceGenerator(&f);
    int w = v_choice("shape", 0, 3);
    AnyRow c0(0, rows0, 2), c1(1, rows1, w & 1 ? 2 : 1), c2(2, rows2, w & 2 ? 2 : 1);
    int s = v_choice("slots", 0, 5);
    attach(c0, s % 3, (s + 1 + s / 3) % 3, t.rb);
    attach(c1, (s + 1) % 3, s % 3, t.rb);
    attach(c2, 2, s % 2, t.rb);
    t.sys.addConstraint(&c0); t.sys.addConstraint(&c1); t.sys.addConstraint(&c2);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.sys.process(dt, 1);
    AnyRow *l[] = {&c0, &c1, &c2};
    verify(t, l, 3, f, as, dt);
}
void c24_mix() { mix(1, 2, 1); }
void c24_deep() { mix(2, 1, 2); }
// the library's exact solver: the residual vanishes
static void gauss(int rows, int bodies) {
    Sys24 t(2);
    GaussianEliminationSleSolver g; AnyForce f(0, 2);
    t.sys.initialize(&g, &t.eu);
    for (int i = 0; i < 2; ++i) t.sys.addRigidBody(&t.rb[i]);
    t.sys.addForceGenerator(&f);
    AnyRow c(0, rows, bodies);
    int a = v_choice("a", 0, 1);
    attach(c, a, 1 - a, t.rb);
    t.sys.addConstraint(&c);
    double dt = v_real("dt"); v_assume(dt > 0);
    v_allow_abort(1);
    t.sys.process(dt, 1);
    v_allow_abort(0);
    for (int r = 0; r < rows; ++r) {
        double res = c.last.ks[r] * c.last.C[r] * dt;
        for (int b = 0; b < bodies; ++b) {
            int i = c.m_bodies[b]->index;
            B6 z; takeBody(t.rb[i], z);
            for (int k = 0; k < 3; ++k) res += c.last.J[r][3 * b + k] * (z.v[k] - t.q[i].v[k]) + dt * (c.last.J_dot[r][3 * b + k] + c.last.kd[r] * c.last.J[r][3 * b + k]) * t.q[i].v[k];
        }
        v_eq(res, 0, "residual");
    }
}
void c24_gauss() { gauss(1, v_choice("bodies", 1, 2)); }
void c24_gauss2() { gauss(2, 1); }
// the library's own constraints and forces: a clutch between two bodies of three under a fixed rotation, gravity and a static force
void c24_real() {
    Sys24 t(3);
    GaussianEliminationSleSolver g; GravityForceGenerator gr; StaticForceGenerator sf;
    t.sys.initialize(&g, &t.eu);
    int p = v_choice("perm", 0, 2);
    for (int i = 0; i < 3; ++i) t.sys.addRigidBody(&t.rb[(i + p) % 3]);
    gr.m_g = v_real("g");
    sf.m_body = &t.rb[1]; sf.setForce(v_real("sfx"), v_real("sfy")); sf.setPosition(v_real("spx"), v_real("spy"));
    t.sys.addForceGenerator(&gr); t.sys.addForceGenerator(&sf);
    ClutchConstraint cl; FixedRotationConstraint fr;
    cl.setBody1(&t.rb[0]); cl.setBody2(&t.rb[2]); cl.m_kd = v_real("ckd"); cl.m_ks = v_real("cks");
    fr.setBody(&t.rb[1]); fr.m_kd = v_real("fkd"); fr.m_ks = v_real("fks"); fr.m_rotation = v_real("rot");
    t.sys.addConstraint(&cl); t.sys.addConstraint(&fr);
    double dt = v_real("dt"); v_assume(dt > 0);
    t.sys.process(dt, 1);
    B6 z[3];
    for (int i = 0; i < 3; ++i) takeBody(t.rb[i], z[i]);
    double dw = (z[0].v[2] - t.q[0].v[2]) - (z[2].v[2] - t.q[2].v[2]), w = t.q[0].v[2] - t.q[2].v[2];
    v_eq(dw + dt * cl.m_kd * w, 0, "residual");
    v_eq(z[1].v[2] - t.q[1].v[2] + dt * (fr.m_kd * t.q[1].v[2] + fr.m_ks * (t.q[1].p[2] - fr.m_rotation)), 0, "residual");
    v_eq((z[0].v[2] - t.q[0].v[2]) * t.q[0].m[2] + (z[2].v[2] - t.q[2].v[2]) * t.q[2].m[2], 0, "momentum");
    for (int i = 0; i < 3; ++i) {
        v_eq(z[i].v[0] - t.q[i].v[0], i == 1 ? dt * sf.m_f_x / t.q[1].m[0] : 0, "forces");
        v_eq(z[i].v[1] - t.q[i].v[1], -dt * gr.m_g + (i == 1 ? dt * sf.m_f_y / t.q[1].m[0] : 0), "forces");
        for (int k = 0; k < 3; ++k) v_eq(z[i].p[k], t.q[i].p[k] + dt * t.q[i].v[k], "pose");
    }
}
// any integrator: every evaluation it asks for satisfies the equation in the state it set up, its result is written back
struct AnyOde : OdeSolver {
    int stages, left = 0, evals = 0, starts = 0, ends = 0, nb, nc;
    double dt = 0;
    AnyRow **c; AnyForce *f; AnySolver *as; B6 *q;
    double v[3][3];
    void start(SystemState *s, double d) override { OdeSolver::start(s, d); dt = d; left = stages; ++starts; v_assert(s->n >= nb, "state-size"); }
    bool step(SystemState *s) override {
        s->dt = sym("sdt", 0, evals, 0);
        for (int i = 0; i < nb; ++i) {
            s->v_x[i] = v[i][0] = sym("sv", i, evals, 0); s->v_y[i] = v[i][1] = sym("sv", i, evals, 1); s->v_theta[i] = v[i][2] = sym("sv", i, evals, 2);
            s->p_x[i] = sym("sp", i, evals, 0); s->p_y[i] = sym("sp", i, evals, 1); s->theta[i] = sym("sp", i, evals, 2);
        }
        return --left == 0;
    }
    void solve(SystemState *s) override {
        double a[3][3], R[3][3];
        for (int i = 0; i < nb; ++i) { a[i][0] = s->a_x[i]; a[i][1] = s->a_y[i]; a[i][2] = s->a_theta[i]; R[i][0] = f->fx[i]; R[i][1] = f->fy[i]; R[i][2] = f->t[i]; }
        int row = 0;
        for (int j = 0; j < nc; ++j)
            for (int r = 0; r < c[j]->getConstraintCount(); ++r, ++row) {
                double res = c[j]->last.ks[r] * c[j]->last.C[r];
                for (int b = 0; b < c[j]->m_bodyCount; ++b) {
                    int i = c[j]->m_bodies[b]->index;
                    for (int k = 0; k < 3; ++k) {
                        double J = c[j]->last.J[r][3 * b + k];
                        res += J * a[i][k] + (c[j]->last.J_dot[r][3 * b + k] + c[j]->last.kd[r] * J) * v[i][k];
                        R[i][k] += J * as->lam[row];
                    }
                }
                v_eq(res, as->A(row) - as->b[row], "equation");
            }
        for (int i = 0; i < nb; ++i) for (int k = 0; k < 3; ++k) v_eq(a[i][k] * q[i].m[k], R[i][k], "newton");
        ++evals;
        if (left == 0)
            for (int i = 0; i < nb; ++i) {
                s->v_x[i] = sym("ov", i, 0, 0); s->v_y[i] = sym("ov", i, 0, 1); s->v_theta[i] = sym("ov", i, 0, 2);
                s->p_x[i] = sym("op", i, 0, 0); s->p_y[i] = sym("op", i, 0, 1); s->theta[i] = sym("op", i, 0, 2);
            }
    }
    void end() override { ++ends; }
};
void c24_stages() {
    Sys24 t(3);
    AnySolver as(false); AnyForce f(0, 3); AnyOde o;
    t.sys.initialize(&as, &o);
    for (int i = 0; i < 3; ++i) t.sys.addRigidBody(&t.rb[i]);
    t.sys.addForceGenerator(&f);
    AnyRow c0(0, 1, 2), c1(1, 2, 1);
    int s = v_choice("slots", 0, 2);
    attach(c0, s, (s + 1) % 3, t.rb); attach(c1, (s + 2) % 3, 0, t.rb);
    t.sys.addConstraint(&c1); t.sys.addConstraint(&c0);
    AnyRow *l[] = {&c1, &c0};
    o.stages = v_choice("stages", 1, 3); o.nb = 3; o.nc = 2; o.c = l; o.f = &f; o.as = &as; o.q = t.q;
    int steps = v_choice("steps", 1, 3); if (steps == 3) steps = 9;
    double dt = v_real("dt"); v_assume(dt > 0);
    t.sys.process(dt, steps);
    v_assert(o.evals == steps * o.stages && o.starts == steps && o.ends == steps, "schedule");
    v_assert(f.calls == o.evals && c0.calls == o.evals && as.calls == o.evals, "schedule");
    v_eq(o.dt * steps, dt, "dt");
    for (int i = 0; i < 3; ++i) {
        B6 z; takeBody(t.rb[i], z);
        for (int k = 0; k < 3; ++k) { v_eq(z.v[k], sym("ov", i, 0, k), "write-back"); v_eq(z.p[k], sym("op", i, 0, k), "write-back"); v_eq(z.m[k], t.q[i].m[k], "mass-kept"); }
    }
}
// a large coupled system through the library's own exact solver
void c24_gauss_crowd() {
    static const int NB[3] = {12, 14, 9}, NC[3] = {8, 10, 3};
    int z = v_choice("size", 0, 2);
    Crowd t(NB[z], NC[z], true);
    GaussianEliminationSleSolver g; Machine mc(GEN_EULER, &g);
    int none = 0;
    v_allow_abort(1);  // the earlier life may well be unsolvable
    t.enter(mc.sys(), v_choice("past", 0, 3), true, none);
    v_allow_abort(0);
    mc.n.m_biasFactor = 0.5;
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    for (int j = 0; j < t.nc; ++j) for (int r = 0; r < t.c[j]->getConstraintCount(); ++r) v_eq(t.residual(j, r, false, h, 0.5), 0, "residual");
    t.balance(h, "newton");
}
}
