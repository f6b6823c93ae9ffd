// C26 reported constraint forces
#include "crowd.h"
#include "world.h"
//@ bound 3 bodies, 3 constraints of every row and body count, both systems, Euler and RK4, 1 to 2 sub-steps; every value and multiplier an arbitrary real (in the RK4 runs the constraint Jacobians are concrete), 1 or 2 steps with the population reduced in between; one fixed wiring of 40 bodies with 40 constraints (RK4: 70 constraints) and of 300 bodies with 140 constraints, some constraint bodies outside the system, the large system fresh or after earlier steps with other values, fewer elements or a reset; the last of 5, 18, 36 and 130 sub-steps; frames 599 to 602 of a system
//@ stub constraints, force generators and the equation solver are stand-ins returning arbitrary values
//@ entry c26_generic need=row-force,balance,absent
//@ entry c26_nsv need=row-force,balance,absent
//@ entry c26_rk4 need=mean,balance
//@ entry c26_removed need=row-force
//@ entry c26_crowd need=row-force,absent
//@ entry c26_many need=row-force,absent
//@ entry c26_frames need=row-force,absent
//@ entry c26_hundreds need=row-force,absent,balance
//@ entry c26_crowd_rk4 need=mean
//@ entry c26_real need=balance
static void attach(Constraint &c, int a, int b, RigidBody *rb) { c.m_bodies[0] = &rb[a]; if (c.m_bodyCount == 2) c.m_bodies[1] = &rb[b]; }
struct Set {
    RigidBody rb[3]; B6 q[3];
    AnyRow c0, c1, c2; AnyRow *l[3];
    AnyForce f;
    Set(RigidBodySystem &sys) : c0(0, v_choice("r0", 1, 3), 2), c1(1, v_choice("r1", 1, 2), v_choice("b1", 1, 2)), c2(2, 1, 1), f(0, 3) {
        int s = v_choice("slots", 0, 2);
        const int world = v_choice("world", 0, 3);  // body 0, 1, 2 or none stays outside the system
        f.n = 0;
        for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); if (i == world) rb[i].index = -1; else { sys.addRigidBody(&rb[i]); ++f.n; } }
        attach(c0, s, (s + 1) % 3, rb); attach(c1, (s + 2) % 3, s, rb); attach(c2, 1, 0, rb);
        l[0] = &c0; l[1] = &c1; l[2] = &c2;
        for (int i = 0; i < 3; ++i) sys.addConstraint(l[i]);
        sys.addForceGenerator(&f);
    }
};
static void rows(Set &t, AnySolver &as, double scale) {
    int row = 0;
    for (int j = 0; j < 3; ++j) {
        int nr = t.l[j]->getConstraintCount();
        for (int r = 0; r < 3; ++r)
            for (int b = 0; b < 2; ++b)
                for (int k = 0; k < 3; ++k) {
                    double F = reported(*t.l[j], r, b, k);
                    if (r < nr && b < t.l[j]->m_bodyCount) { if (t.l[j]->m_bodies[b]->index != -1) v_eq(F * scale, as.lam[row + r] * t.l[j]->last.J[r][3 * b + k], "row-force"); }
                    else v_eq(F, 0, "absent");
                }
        row += nr;
    }
    v_reach("absent");
}
static void balance(Set &t, double dt) {
    for (int i = 0; i < 3; ++i) {
        B6 z; takeBody(t.rb[i], z);
        int x = t.rb[i].index;
        if (x < 0) { for (int k = 0; k < 3; ++k) { v_eq(z.v[k], t.q[i].v[k], "world"); v_eq(z.p[k], t.q[i].p[k], "world"); } continue; }
        double s[3] = {t.f.fx[x], t.f.fy[x], t.f.t[x]};
        for (int j = 0; j < 3; ++j)
            for (int r = 0; r < t.l[j]->getConstraintCount(); ++r)
                for (int b = 0; b < t.l[j]->m_bodyCount; ++b)
                    if (t.l[j]->m_bodies[b] == &t.rb[i]) for (int k = 0; k < 3; ++k) s[k] += reported(*t.l[j], r, b, k);
        for (int k = 0; k < 3; ++k) v_eq(z.m[k] * (z.v[k] - t.q[i].v[k]), dt * s[k], "balance");
    }
}
extern "C" {
// large systems
void c26_crowd() {
    bool nsv = v_choice("nsv", 0, 1);
    Crowd t(40, 40, true);
    GenericRigidBodySystem g; OptimizedNsvRigidBodySystem n; EulerOdeSolver eu; CrowdSolver as(nsv);
    if (nsv) n.initialize(&as); else g.initialize(&as, &eu);
    RigidBodySystem &sys = nsv ? (RigidBodySystem &)n : (RigidBodySystem &)g;
    t.enter(sys, v_choice("past", 0, 3), true, as.calls);
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h, 1);
    t.reactions(as, nsv ? h : 1);
}
// the last of many sub-steps
void c26_many() {
    static const int N[4] = {5, 18, 36, 130};
    bool nsv = v_choice("nsv", 0, 1);
    int few = v_choice("few", 0, FEWS - 1);
    Crowd t(FEW_NB[few], FEW_NC[few], true);
    GenericRigidBodySystem g; OptimizedNsvRigidBodySystem n; EulerOdeSolver eu; CrowdSolver as(nsv);
    if (nsv) n.initialize(&as); else g.initialize(&as, &eu);
    RigidBodySystem &sys = nsv ? (RigidBodySystem &)n : (RigidBodySystem &)g;
    t.enter(sys, v_choice("past", 0, 3), true, as.calls);
    int steps = N[v_choice("steps", 0, 3)];
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h * steps, steps);
    t.reactions(as, nsv ? h : 1);
}
// hundreds of frames into the system's life
void c26_frames() {
    bool nsv = v_choice("nsv", 0, 1);
    Crowd t(4, 3, true);
    GenericRigidBodySystem g; OptimizedNsvRigidBodySystem n; EulerOdeSolver eu; CrowdSolver as(nsv);
    if (nsv) n.initialize(&as); else g.initialize(&as, &eu);
    RigidBodySystem &sys = nsv ? (RigidBodySystem &)n : (RigidBodySystem &)g;
    t.enter(sys, v_choice("past", 4, 6), true, as.calls);
    double h = v_real("h"); v_assume(h > 0);
    for (int k = 0; k < 2; ++k) { sys.process(h, 1); t.reactions(as, nsv ? h : 1); }
}
// hundreds of bodies and rows, every third body part of the world
void c26_hundreds() {
    bool nsv = v_choice("nsv", 0, 1);
    Crowd t(300, 140, true);
    CrowdSolver as(nsv);
    Machine mc(nsv ? NSV_SYS : GEN_EULER, &as);
    int past = v_choice("past", 0, 4);
    if (past == 4) {
        t.add(mc.sys());
        t.leave(mc.sys());
    }
    else t.enter(mc.sys(), past, true, as.calls);
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    t.reactions(as, nsv ? h : 1);
    t.balance(h, "balance");
}
void c26_crowd_rk4() {
    Crowd t(40, 70, true);
    GenericRigidBodySystem sys; Rk4OdeSolver rk; CrowdSolver as(false);
    sys.initialize(&as, &rk);
    t.add(sys);
    struct Keep : ForceGenerator {  // the Jacobians of the evaluation before
        Crowd *t; int n = 0; double J[5][70][3][6];
        void keep() { for (int j = 0; j < 70; ++j) for (int r = 0; r < 3; ++r) for (int k = 0; k < 6; ++k) J[n][j][r][k] = t->c[j]->last.J[r][k]; ++n; }
        void apply(SystemState *) override { keep(); }
    } kp;
    kp.t = &t;
    for (int j = 0; j < 70; ++j) t.c[j]->last = Constraint::Output();
    sys.addForceGenerator(&kp);
    sys.process(0.25, 1);
    kp.keep();
    v_assert(as.calls == 4 && kp.n == 5, "stages");
    const double w[4] = {1, 2, 2, 1};
    int row = 0;
    for (int j = 0; j < 70; ++j)
        for (int r = 0; r < t.c[j]->getConstraintCount(); ++r, ++row)
            for (int b = 0; b < t.c[j]->m_bodyCount; ++b)
                for (int k = 0; k < 3; ++k) {
                    double e = 0;
                    for (int s = 0; s < 4; ++s) e += w[s] * as.lam[s][row] * kp.J[s + 1][j][r][3 * b + k];
                    v_eq(6 * reported(*t.c[j], r, b, k), e, "mean");
                }
}
void c26_generic() {
    GenericRigidBodySystem sys; EulerOdeSolver eu; AnySolver as(false);
    sys.initialize(&as, &eu);
    Set t(sys);
    double dt = v_real("dt"); v_assume(dt > 0);
    sys.process(dt, 1);
    rows(t, as, 1);
    balance(t, dt);
    if (v_choice("more", 0, 1)) { sys.process(dt, 2); rows(t, as, 1); }
}
void c26_nsv() {
    OptimizedNsvRigidBodySystem sys; AnySolver as(v_choice("limited", 0, 1));
    sys.initialize(&as);
    Set t(sys);
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h, 1);
    rows(t, as, h);
    balance(t, h);
    if (v_choice("more", 0, 1)) { sys.process(2 * h, 2); rows(t, as, h); }
}
// RK4: the stage-weighted mean of the last sub-step
struct Rec : SleSolver {
    int calls = 0, m = 0; double lam[16][4];
    Rec() : SleSolver(false) {}
    bool solve(SparseMatrix<3> &, Matrix &, Matrix &r, Matrix *, Matrix *res) override {
        m = r.getHeight();
        res->resize(1, m);
        for (int i = 0; i < m; ++i) { lam[calls][i] = sym("lam", 0, calls, i); res->set(0, i, lam[calls][i]); }
        ++calls;
        return true;
    }
};
struct Fixed : Constraint {  // concrete Jacobian, different at every evaluation
    int id, calls = 0; double J[16][3][6];
    Fixed(int i, int rows, int b) : Constraint(rows, b), id(i) {}
    void calculate(Output *o, SystemState *) override {
        *o = Output();
        for (int r = 0; r < m_constraintCount; ++r) for (int c = 0; c < 3 * m_bodyCount; ++c) o->J[r][c] = J[calls][r][c] = 1 + id + 2 * r + 3 * c + 5 * calls;
        ++calls;
    }
};
void c26_rk4() {
    GenericRigidBodySystem sys; Rk4OdeSolver rk; Rec so;
    sys.initialize(&so, &rk);
    RigidBody rb[2]; B6 q[2];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); sys.addRigidBody(&rb[i]); }
    Fixed c(0, v_choice("rows", 1, 2), 2), d(7, 1, 1); Constraint *l[2] = {&c, &d}; Fixed *fl[2] = {&c, &d};
    int s = v_choice("slot", 0, 1);
    attach(c, s, 1 - s, rb); attach(d, 1, 0, rb);
    sys.addConstraint(&c); sys.addConstraint(&d);
    int steps = v_choice("steps", 1, 2);
    double h = v_real("h"); v_assume(h > 0);
    AnyForce f(0, 2);
    sys.addForceGenerator(&f);
    struct Keep : ForceGenerator { AnyForce *f; double F[8][2][3]; int n = 0; void apply(SystemState *) override { for (int i = 0; i < 2; ++i) { F[n][i][0] = f->fx[i]; F[n][i][1] = f->fy[i]; F[n][i][2] = f->t[i]; } ++n; } } kp;
    kp.f = &f;
    sys.addForceGenerator(&kp);
    sys.process(h * steps, steps);
    v_assert(so.calls == 4 * steps && c.calls == 4 * steps, "stages");
    const double w[4] = {1, 2, 2, 1};
    double sum[2][3] = {};
    int base = 4 * (steps - 1), row = 0;
    for (int j = 0; j < 2; ++j)
        for (int r = 0; r < l[j]->getConstraintCount(); ++r, ++row)
            for (int b = 0; b < l[j]->m_bodyCount; ++b)
                for (int k = 0; k < 3; ++k) {
                    double e = 0;
                    for (int t = 0; t < 4; ++t) e += w[t] * so.lam[base + t][row] * fl[j]->J[base + t][r][3 * b + k];
                    v_eq(6 * reported(*l[j], r, b, k), e, "mean");
                    sum[l[j]->m_bodies[b]->index][k] += reported(*l[j], r, b, k);
                }
    if (steps == 1)
        for (int i = 0; i < 2; ++i) {
            B6 z; takeBody(rb[i], z);
            for (int k = 0; k < 3; ++k) {
                double e = 0;
                for (int t = 0; t < 4; ++t) e += w[t] * kp.F[t][i][k];
                v_eq(6 * z.m[k] * (z.v[k] - q[i].v[k]), h * (e + 6 * sum[i][k]), "balance");
            }
        }
    v_reach("balance");
}
// a step with fewer constraints than the step before
void c26_removed() {
    bool nsv = v_choice("nsv", 0, 1);
    GenericRigidBodySystem g; OptimizedNsvRigidBodySystem n; EulerOdeSolver eu; Rk4OdeSolver rk; AnySolver as(nsv);
    int ode = nsv ? 0 : v_choice("ode", 0, 1);
    if (nsv) n.initialize(&as); else g.initialize(&as, ode ? (OdeSolver *)&rk : (OdeSolver *)&eu);
    RigidBodySystem &sys = nsv ? (RigidBodySystem &)n : (RigidBodySystem &)g;
    RigidBody rb[2]; B6 q[2];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i, true); sys.addRigidBody(&rb[i]); }
    Fixed c(0, 2, 2), d(4, 1, 1), e(9, 1, 2); Fixed *l[3] = {&c, &d, &e};
    attach(c, 0, 1, rb); attach(d, 1, 0, rb); attach(e, 1, 0, rb);
    for (int i = 0; i < 3; ++i) sys.addConstraint(l[i]);
    sys.process(1, 1);
    int rm = v_choice("removed", 0, 2);
    sys.removeConstraint(l[rm]);
    sys.process(1, 1);
    int left = 0;
    for (int j = 0; j < 3; ++j) if (j != rm) left += l[j]->getConstraintCount();
    v_assert(as.m == left, "rows");
    if (ode == 0)
        for (int o = 0; o < 3; ++o) {
            if (o == rm) continue;
            Fixed &x = *l[o];
            for (int r = 0; r < x.getConstraintCount(); ++r) {
                int row = -1;  // the equation this row was given to the solver as
                for (int i = 0; i < left; ++i) {
                    bool eq = true;
                    for (int b = 0; b < x.m_bodyCount; ++b) for (int k = 0; k < 3; ++k) if (as.J[i][3 * x.m_bodies[b]->index + k] != x.J[x.calls - 1][r][3 * b + k]) eq = false;
                    if (x.m_bodyCount == 1) for (int k = 0; k < 3; ++k) if (as.J[i][3 * (1 - x.m_bodies[0]->index) + k] != 0) eq = false;
                    if (eq) row = i;
                }
                v_assert(row >= 0, "row-given");
                for (int b = 0; b < x.m_bodyCount; ++b) for (int k = 0; k < 3; ++k) v_eq(reported(x, r, b, k), as.lam[row] * x.J[x.calls - 1][r][3 * b + k], "row-force");
            }
        }
    v_reach("row-force");
}
// the library's own pieces: a hanging body on a link, exact solver
void c26_real() {
    bool nsv = v_choice("nsv", 0, 1);
    GenericRigidBodySystem g; OptimizedNsvRigidBodySystem n; EulerOdeSolver eu; GaussianEliminationSleSolver ge;
    if (nsv) n.initialize(&ge); else g.initialize(&ge, &eu);
    RigidBodySystem &sys = nsv ? (RigidBodySystem &)n : (RigidBodySystem &)g;
    RigidBody rb[2]; B6 q[2];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i, true); sys.addRigidBody(&rb[i]); }
    ClutchConstraint cl; FixedRotationConstraint fr; GravityForceGenerator gr; gr.m_g = v_real("g");
    cl.setBody1(&rb[0]); cl.setBody2(&rb[1]); fr.setBody(&rb[1]); fr.m_rotation = v_real("rot");
    cl.m_kd = v_real("ckd"); fr.m_ks = v_real("fks"); fr.m_kd = v_real("fkd");
    sys.addConstraint(&cl); sys.addConstraint(&fr); sys.addForceGenerator(&gr);
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h, 1);
    v_eq(rb[0].v_theta - q[0].v[2], h * cl.F_t[0][0], "balance");
    v_eq(rb[1].v_theta - q[1].v[2], h * (cl.F_t[0][1] + fr.F_t[0][0]), "balance");
    v_eq(cl.F_t[0][0] + cl.F_t[0][1], 0, "balance");
    for (int i = 0; i < 2; ++i) { v_eq(cl.F_x[0][i], 0, "balance"); v_eq(cl.F_y[0][i], 0, "balance"); v_eq(rb[i].v_y - q[i].v[1], -h * gr.m_g, "balance"); }
}
}
