// C29 sub-stepping
#include "world.h"
#include "crowd.h"
//@ bound 2 to 3 bodies, up to 3 constraints, 2 to 4 sub-steps (2 for RK4 in the quick tier), all three system/integrator combinations; states, masses and time step arbitrary reals; 5, 8, 9 and 17 sub-steps (5 and 8 for RK4) of fixed length, linear forces and constraint; 1 to 600 sub-steps of one body with one steady force and row
//@ stub c29_linear, c29_springs: equation solver a fixed function of J, W, right side and limits; c29_linear: constraints and forces fixed linear functions of the state; c29_gauss uses the library's own solver, constraints and forces
//@ entry c29_linear need=same
//@ entry c29_rk4 need=same
//@ entry c29_springs need=same
//@ entry c29_links need=same
//@ entry c29_gauss need=same
//@ entry c29_evaluated need=evaluated
//@ entry c29_many need=same
//@ entry c29_long need=same
//@ entry c29_deep thorough need=same
static void attach(Constraint &c, int a, int b, RigidBody *rb) { c.m_bodies[0] = &rb[a]; if (c.m_bodyCount == 2) c.m_bodies[1] = &rb[b]; }
static void linear(int kind, int n, bool unit, int rows) {
    FuncSolver s(kind == NSV_SYS);
    Machine a(kind, &s), b(kind, &s);
    Machine *w[2] = {&a, &b};
    RigidBody rb[2][3]; B6 q;
    StRow c0(0, rows, 2), c1(1, 1, 1), d0(0, rows, 2), d1(1, 1, 1);
    StRow *c[2][2] = {{&c0, &c1}, {&d0, &d1}};
    StForce f0(0, &rb[0][0]), f1(1, &rb[0][1]), h0(0, &rb[1][0]), h1(1, &rb[1][1]);
    ForceGenerator *f[2][2] = {{&f0, &f1}, {&h0, &h1}};
    int slot = v_choice("slot", 0, 1);
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < 3; ++i) { symBody(rb[k][i], q, i, unit); w[k]->sys().addRigidBody(&rb[k][i]); }
        attach(*c[k][0], slot, 2, rb[k]); attach(*c[k][1], 1, 0, rb[k]);
        for (int j = 0; j < 2; ++j) { w[k]->sys().addConstraint(c[k][j]); w[k]->sys().addForceGenerator(f[k][j]); }
        w[k]->n.m_biasFactor = 0.5;
    }
    double h = v_real("h"); v_assume(h > 0);
    a.sys().process(h * n, n);
    for (int i = 0; i < n; ++i) b.sys().process(h, 1);
    for (int i = 0; i < 3; ++i) sameBody(rb[0][i], rb[1][i], "same");
    for (int j = 0; j < 2; ++j) sameForces(*c[0][j], *c[1][j], "same");
    if (kind == NSV_SYS) v_eq(a.n.timeElapsed(), b.n.timeElapsed(), "time");
}
extern "C" {
void c29_linear() { int k = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER; linear(k, v_choice("n", 1, 2), true, v_choice("rows", 1, 3)); }
void c29_deep() { int k = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER; linear(k, 3, true, 2); }
// concrete pose and velocity, symbolic step: four stages per sub-step stay small
void c29_rk4() {
    FuncSolver s(false);
    Machine a(GEN_RK4, &s), b(GEN_RK4, &s);
    Machine *w[2] = {&a, &b};
    RigidBody rb[2][2];
    StRow c0(0, 2, 2), d0(0, 2, 2); StRow *c[2] = {&c0, &d0};
    StForce f0(0, &rb[0][0]), h0(0, &rb[1][0]); ForceGenerator *f[2] = {&f0, &h0};
    int n = v_choice("n", 1, 3);
    double x = v_real("x"), vx = v_real("vx"), t = v_real("t"), om = v_real("om");
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < 2; ++i) {
            rb[k][i].p_x = x + i; rb[k][i].p_y = 2; rb[k][i].theta = i ? 3 : t; rb[k][i].v_x = i ? 1 : vx; rb[k][i].v_y = i; rb[k][i].v_theta = i ? om : 1; rb[k][i].m = 2; rb[k][i].I = 4;
            w[k]->sys().addRigidBody(&rb[k][i]);
        }
        attach(*c[k], 1, 0, rb[k]);
        w[k]->sys().addConstraint(c[k]); w[k]->sys().addForceGenerator(f[k]);
    }
    const double h = 0.5;
    a.sys().process(h * n, n);
    for (int i = 0; i < n; ++i) b.sys().process(h, 1);
    for (int i = 0; i < 2; ++i) sameBody(rb[0][i], rb[1][i], "same");
    sameForces(c0, d0, "same");
}
// springs (also to the world), no constraints
void c29_springs() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    FuncSolver s(false);
    Machine a(kind, &s), b(kind, &s);
    Machine *w[2] = {&a, &b};
    RigidBody rb[2][2], world[2]; B6 q; Spring sp[2], sw[2]; GravityForceGenerator g[2];
    int which = v_choice("which", 0, 1);
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < 2; ++i) {
            RigidBody &r = rb[k][i];
            r.m = 1 + i; r.I = 2; r.p_x = 3 * i; r.p_y = 0; r.theta = 0; r.v_x = i ? v_real("vx") : 1; r.v_y = 0; r.v_theta = 0;
            w[k]->sys().addRigidBody(&r);
        }
        sp[k].m_body1 = &rb[k][0]; sp[k].m_body2 = &rb[k][1]; sp[k].m_ks = 2; sp[k].m_kd = 1; sp[k].m_restLength = 1;
        sw[k].m_body1 = &world[k]; sw[k].m_body2 = &rb[k][1]; sw[k].m_ks = 3; sw[k].m_kd = 2; sw[k].m_restLength = 0;
        world[k].p_x = 5; world[k].p_y = 0; world[k].theta = 0;
        w[k]->sys().addForceGenerator(which ? (ForceGenerator *)&sw[k] : (ForceGenerator *)&sp[k]);
        w[k]->sys().addForceGenerator(&g[k]);
        g[k].m_g = 0;
    }
    (void)q;
    const double h = 0.125;
    v_assume(v_real("vx") >= -1); v_assume(v_real("vx") <= 1);
    a.sys().process(2 * h, 2);
    for (int i = 0; i < 2; ++i) b.sys().process(h, 1);
    for (int i = 0; i < 2; ++i) sameBody(rb[0][i], rb[1][i], "same");
}
// the library's link and line between sub-steps: re-evaluated at the new pose
void c29_links() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    FuncSolver s(false);
    Machine a(kind, &s), b(kind, &s);
    Machine *w[2] = {&a, &b};
    RigidBody rb[2][2]; B6 q; LinkConstraint lk[2]; FixedPositionConstraint fp[2];
    int link = v_choice("link", 0, 1);
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < 2; ++i) { symBody(rb[k][i], q, i, true); rb[k][i].v_theta = i + 1; w[k]->sys().addRigidBody(&rb[k][i]); }
        lk[k].setBody1(&rb[k][0]); lk[k].setBody2(&rb[k][1]); lk[k].setLocalPosition1(1, 0); lk[k].setLocalPosition2(0, 2);
        fp[k].setBody(&rb[k][0]); fp[k].setLocalPosition(0, 0); fp[k].setWorldPosition(v_real("wx"), 1);
        w[k]->sys().addConstraint(&fp[k]);
        if (link) w[k]->sys().addConstraint(&lk[k]);
        w[k]->n.m_biasFactor = 0.5;
    }
    const double h = 0.25;
    a.sys().process(2 * h, 2);
    for (int i = 0; i < 2; ++i) b.sys().process(h, 1);
    for (int i = 0; i < 2; ++i) sameBody(rb[0][i], rb[1][i], "same");
    sameForces(fp[0], fp[1], "same"); sameForces(lk[0], lk[1], "same");
}
void c29_gauss() {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS), n = v_choice("n", 2, 3);
    GaussianEliminationSleSolver s, s2;
    Machine a(kind, &s), b(kind, &s2);
    Machine *w[2] = {&a, &b};
    RigidBody rb[2][2]; B6 q; ClutchConstraint cl[2]; FixedRotationConstraint fr[2]; GravityForceGenerator g[2];
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < 2; ++i) { symBody(rb[k][i], q, i, true); w[k]->sys().addRigidBody(&rb[k][i]); }
        cl[k].setBody1(&rb[k][0]); cl[k].setBody2(&rb[k][1]);
        fr[k].setBody(&rb[k][0]); fr[k].m_rotation = 1;
        w[k]->sys().addConstraint(&cl[k]); w[k]->sys().addConstraint(&fr[k]); w[k]->sys().addForceGenerator(&g[k]);
        w[k]->n.m_biasFactor = v_real("beta");
    }
    double h = v_real("h"); v_assume(h > 0);
    a.sys().process(h * n, n);
    for (int i = 0; i < n; ++i) b.sys().process(h, 1);
    for (int i = 0; i < 2; ++i) sameBody(rb[0][i], rb[1][i], "same");
    sameForces(cl[0], cl[1], "same"); sameForces(fr[0], fr[1], "same");
}
// forces and constraints are evaluated in every sub-step
void c29_evaluated() {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS), n = v_choice("n", 1, 4);
    FuncSolver s(false);
    Machine a(kind, &s);
    RigidBody rb; rb.m = rb.I = 1; rb.p_x = rb.p_y = rb.theta = rb.v_x = rb.v_y = rb.v_theta = 0;
    StRow c(0, 1, 1); StForce f(0, &rb);
    c.m_bodies[0] = &rb;
    a.sys().addRigidBody(&rb); a.sys().addConstraint(&c); a.sys().addForceGenerator(&f);
    a.sys().process(v_pos("dt"), n);
    int per = kind == GEN_RK4 ? 4 : 1;
    v_assert(c.calls == per * n, "evaluated"); v_assert(f.calls == per * n, "evaluated");
}
// many sub-steps
void c29_many() {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS);
    static const int N[4] = {5, 8, 9, 17};
    int n = N[v_choice("n", 0, kind == GEN_RK4 ? 1 : 3)];
    FuncSolver s(kind == NSV_SYS);
    Machine a(kind, &s), b(kind, &s);
    Machine *w[2] = {&a, &b};
    RigidBody rb[2][2]; B6 q; StRow c0(0, 2, 2), d0(0, 2, 2); StRow *c[2] = {&c0, &d0};
    StForce f0(0, &rb[0][0]), h0(0, &rb[1][0]); ForceGenerator *f[2] = {&f0, &h0};
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < 2; ++i) { symBody(rb[k][i], q, i, true); w[k]->sys().addRigidBody(&rb[k][i]); }
        attach(*c[k], 1, 0, rb[k]);
        w[k]->sys().addConstraint(c[k]); w[k]->sys().addForceGenerator(f[k]);
        w[k]->n.m_biasFactor = 0.5;
    }
    const double h = 0.5;
    a.sys().process(h * n, n);
    for (int i = 0; i < n; ++i) b.sys().process(h, 1);
    for (int i = 0; i < 2; ++i) sameBody(rb[0][i], rb[1][i], "same");
    sameForces(c0, d0, "same");
    int per = kind == GEN_RK4 ? 4 : 1;
    v_assert(c0.calls == per * n && f0.calls == per * n, "evaluated");
    if (kind == NSV_SYS) v_eq(a.n.timeElapsed(), b.n.timeElapsed(), "time");
}
// hundreds of sub-steps: one frame against as many frames
void c29_long() {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS);
    bool row = v_choice("row", 0, 1);
    SteadySolver u(kind == NSV_SYS), v(kind == NSV_SYS);
    Machine a(kind, &u), b(kind, &v);
    Steady x(a.sys(), row), y(b.sys(), row);
    int n = LONG[v_choice("n", 0, 4)];
    double h = v_real("h"); v_assume(h > 0);
    a.sys().process(h * n, n);
    for (int i = 0; i < n; ++i) b.sys().process(h, 1);
    sameBody(x.rb, y.rb, "same");
    if (row) sameForces(x.c, y.c, "same");
    x.verify(n, h, row, kind == NSV_SYS ? 1 : kind == GEN_RK4 ? 2 : 0, "same", "same");
    v_assert(u.calls == v.calls && x.f.calls == y.f.calls && x.c.calls == y.c.calls, "evaluated");
    if (kind == NSV_SYS) v_eq(a.n.timeElapsed(), b.n.timeElapsed(), "time");
}
}
