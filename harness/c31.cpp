// C31 isolation
#include "world.h"
#include "crowd.h"
//@ bound 3 to 4 bodies in two groups at every interleaving of slots, up to 3 constraints and 2 forces; both systems, Euler and RK4, 1 to 2 sub-steps; every value an arbitrary real; a body alone in its system; one free body at five slots among 36 others with 40 constraints; two groups of 1 to 20 (9 with the Gaussian solver) bodies and constraints, three interleavings, equal and very different masses
//@ stub c31_free: constraint, force values and multipliers are stand-ins; c31_groups: solver a per-row function of its own equation; c31_gauss, c31_gs use the library's own solvers
//@ entry c31_free need=inertia
//@ entry c31_alone need=inertia
//@ entry c31_rk4 need=inertia
//@ entry c31_groups need=same
//@ entry c31_gauss need=same
//@ entry c31_gs need=same
//@ entry c31_gs2 need=same
//@ entry c31_gs_generic need=same
//@ entry c31_crowd need=inertia
//@ entry c31_crowd_groups need=same
//@ entry c31_crowd_gauss need=same
//@ entry c31_deep thorough need=same budget=500
// answers each row from that row's own equation
struct RowSolver : SleSolver {
    RowSolver() : SleSolver(false) {}
    bool solve(SparseMatrix<3> &J, Matrix &, Matrix &r, Matrix *, Matrix *res) override {
        int m = J.getHeight();
        res->resize(1, m);
        for (int i = 0; i < m; ++i) { double s = 2 * r.get(0, i); for (int e = 0; e < 2; ++e) for (int k = 0; k < 3; ++k) s += J.get(i, e, k) * (k + 1 + e); res->set(0, i, s); }
        return true;
    }
};
extern "C" {
// a body without constraints and forces, whatever the others do
void c31_free() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    AnySolver as(false);
    Machine mc(kind, &as);
    RigidBody rb[3]; B6 q[3];
    int fr = v_choice("free", 0, 2), x = (fr + 1) % 3, y = (fr + 2) % 3;
    for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    AnyRow c(0, v_choice("rows", 1, 3), 2), d(1, 1, 1);
    c.m_bodies[0] = &rb[x]; c.m_bodies[1] = &rb[y]; d.m_bodies[0] = &rb[y];
    mc.sys().addConstraint(&c); mc.sys().addConstraint(&d);
    struct F : ForceGenerator { int a, b; void apply(SystemState *s) override { s->applyForce(v_real("lx"), v_real("ly"), v_real("fx"), v_real("fy"), a); s->t[b] += v_real("tq"); } } f;
    f.a = x; f.b = y;
    mc.sys().addForceGenerator(&f);
    int n = v_choice("steps", 1, 2);
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(n * h, n);
    B6 z; takeBody(rb[fr], z);
    for (int k = 0; k < 3; ++k) { v_eq(z.v[k], q[fr].v[k], "inertia"); v_eq(z.p[k], q[fr].p[k] + n * h * q[fr].v[k], "inertia"); }
}
// nothing constrained anywhere, few or many sub-steps
void c31_alone() {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS), nb = v_choice("bodies", 1, 3), driven = v_choice("driven", 0, nb - 1);
    AnySolver as(false);
    Machine mc(kind, &as);
    RigidBody rb[3]; B6 q[3];
    for (int i = 0; i < nb; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    struct F : ForceGenerator { int a; void apply(SystemState *s) override { if (a > 0) { s->f_x[a] += v_real("fx"); s->f_y[a] += v_real("fy"); s->t[a] += v_real("tq"); } } } f;
    f.a = driven;
    mc.sys().addForceGenerator(&f);
    int n = LONG[v_choice("steps", 0, 4)];
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(n * h, n);
    for (int i = 0; i < nb; ++i) {
        if (i == driven && driven > 0) continue;
        B6 z; takeBody(rb[i], z);
        for (int k = 0; k < 3; ++k) { v_eq(z.v[k], q[i].v[k], "inertia"); v_eq(z.p[k], q[i].p[k] + n * h * q[i].v[k], "inertia"); }
    }
}
void c31_rk4() {
    FuncSolver fs(false);
    Machine mc(GEN_RK4, &fs);
    RigidBody rb[3]; B6 q[3];
    int fr = v_choice("free", 0, 2), x = (fr + 1) % 3, y = (fr + 2) % 3;
    for (int i = 0; i < 3; ++i) {
        symBody(rb[i], q[i], i, true); mc.sys().addRigidBody(&rb[i]);
        if (i != fr) { rb[i].p_x = i; rb[i].p_y = 1; rb[i].theta = 2; rb[i].v_x = 1; rb[i].v_y = i; rb[i].v_theta = 1; }
    }
    StRow c(0, v_choice("rows", 1, 2), 2); c.m_bodies[0] = &rb[x]; c.m_bodies[1] = &rb[y];
    StForce f(0, &rb[y]);
    mc.sys().addConstraint(&c); mc.sys().addForceGenerator(&f);
    int n = v_choice("steps", 1, 2);
    mc.sys().process(n * 0.5, n);
    B6 z; takeBody(rb[fr], z);
    for (int k = 0; k < 3; ++k) { v_eq(z.v[k], q[fr].v[k], "inertia"); v_eq(z.p[k], q[fr].p[k] + n * 0.5 * q[fr].v[k], "inertia"); }
}
// two groups in one system against two systems
static const int ORDER[6][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {2, 0, 3, 1}, {3, 2, 1, 0}, {2, 3, 0, 1}, {1, 3, 2, 0}};
static void groups(int kind, SleSolver *j, SleSolver *s1, SleSolver *s2, int rows, int steps, bool conc) {
    Machine joint(kind, j), one(kind, s1), two(kind, s2);
    RigidBody a[4], b[4]; B6 q;  // group A = 0, 1; group B = 2, 3
    int o = v_choice("order", 0, 5);
    for (int i = 0; i < 4; ++i) {
        symBody(a[i], q, i, true); symBody(b[i], q, i, true);
        if (conc) { a[i].p_x = b[i].p_x = i; a[i].p_y = b[i].p_y = 2 - i; a[i].theta = b[i].theta = 1; a[i].v_y = b[i].v_y = 1; a[i].v_theta = b[i].v_theta = 3 - i; }
    }
    for (int i = 0; i < 4; ++i) joint.sys().addRigidBody(&a[ORDER[o][i]]);
    one.sys().addRigidBody(&b[0]); one.sys().addRigidBody(&b[1]); two.sys().addRigidBody(&b[2]); two.sys().addRigidBody(&b[3]);
    StRow c0(0, rows, 2), c1(1, 1, 2), c2(2, 1, 1), d0(0, rows, 2), d1(1, 1, 2), d2(2, 1, 1);
    c0.m_bodies[0] = &a[0]; c0.m_bodies[1] = &a[1]; d0.m_bodies[0] = &b[0]; d0.m_bodies[1] = &b[1];
    c1.m_bodies[0] = &a[3]; c1.m_bodies[1] = &a[2]; d1.m_bodies[0] = &b[3]; d1.m_bodies[1] = &b[2];
    c2.m_bodies[0] = &a[2]; d2.m_bodies[0] = &b[2];
    StForce f0(0, &a[1]), f1(1, &a[3]), g0(0, &b[1]), g1(1, &b[3]);
    bool third = v_choice("third", 0, 1) != 0;
    if (o & 1) { joint.sys().addConstraint(&c1); joint.sys().addConstraint(&c0); if (third) joint.sys().addConstraint(&c2); }
    else { joint.sys().addConstraint(&c0); joint.sys().addConstraint(&c1); if (third) joint.sys().addConstraint(&c2); }
    one.sys().addConstraint(&d0); two.sys().addConstraint(&d1); if (third) two.sys().addConstraint(&d2);
    joint.sys().addForceGenerator(&f0); joint.sys().addForceGenerator(&f1); one.sys().addForceGenerator(&g0); two.sys().addForceGenerator(&g1);
    joint.n.m_biasFactor = one.n.m_biasFactor = two.n.m_biasFactor = 0.5;
    double h = 0.5;
    if (!conc) { h = v_real("h"); v_assume(h > 0); }
    joint.sys().process(steps * h, steps); one.sys().process(steps * h, steps); two.sys().process(steps * h, steps);
    for (int i = 0; i < 4; ++i) sameBody(a[i], b[i], "same");
    sameForces(c0, d0, "same"); sameForces(c1, d1, "same"); if (third) sameForces(c2, d2, "same");
}
void c31_groups() { RowSolver s; int k = v_choice("kind", GEN_EULER, NSV_SYS); groups(k, &s, &s, &s, v_choice("rows", 1, 2), 1, k == GEN_RK4); }
void c31_gauss() { GaussianEliminationSleSolver s, t, u; groups(v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, &s, &t, &u, 1, 1, true); }
void c31_deep() { GaussianEliminationSleSolver s, t, u; groups(v_choice("kind", GEN_EULER, NSV_SYS), &s, &t, &u, 1, 2, true); }
// limited Gauss-Seidel, one sweep per step (the second step starts from the first's multipliers): groups do not mix either, wherever the other group's rows stand
static void sweeps(int steps, bool small, int kind) {
    GaussSeidelSleSolver s, t; s.m_maxIterations = t.m_maxIterations = 1; s.m_minDelta = t.m_minDelta = INFINITY;
    Machine joint(kind, &s), alone(kind, &t);
    RigidBody a[4], b[2]; B6 q;
    for (int i = 0; i < 4; ++i) { symBody(a[i], q, i, true); if (i < 2) symBody(b[i], q, i, true); }
    int o = v_choice("order", 0, kind != NSV_SYS ? 0 : small ? 2 : 5);
    for (int i = 0; i < 4; ++i) joint.sys().addRigidBody(&a[ORDER[o][i]]);
    for (int i = 0; i < 2; ++i) alone.sys().addRigidBody(&b[i]);
    ClutchConstraint c, d, x; RotationFrictionConstraint f, g, e;
    c.setBody1(&a[0]); c.setBody2(&a[1]); d.setBody1(&b[0]); d.setBody2(&b[1]);
    c.m_maxTorque = d.m_maxTorque = v_real("T"); c.m_minTorque = d.m_minTorque = -v_real("T"); v_assume(v_real("T") >= 0);
    x.setBody1(&a[2]); x.setBody2(&a[3]); f.setBody(&a[3]);
    g.setBody(&a[1]); e.setBody(&b[1]);
    if (small) {  // limits out of play
        c.m_maxTorque = d.m_maxTorque = INFINITY; c.m_minTorque = d.m_minTorque = -INFINITY;
        f.m_maxTorque = g.m_maxTorque = e.m_maxTorque = x.m_maxTorque = INFINITY; f.m_minTorque = g.m_minTorque = e.m_minTorque = x.m_minTorque = -INFINITY;
    }
    switch (v_choice("place", 0, 3)) {
        case 0: joint.sys().addConstraint(&x); joint.sys().addConstraint(&c); joint.sys().addConstraint(&f); joint.sys().addConstraint(&g); break;
        case 1: joint.sys().addConstraint(&c); joint.sys().addConstraint(&x); joint.sys().addConstraint(&f); joint.sys().addConstraint(&g); break;
        case 2: joint.sys().addConstraint(&c); joint.sys().addConstraint(&f); joint.sys().addConstraint(&g); joint.sys().addConstraint(&x); break;
        case 3: joint.sys().addConstraint(&c); joint.sys().addConstraint(&g); break;
    }
    alone.sys().addConstraint(&d); alone.sys().addConstraint(&e);
    double h = kind == NSV_SYS ? v_real("h") : 0.5; v_assume(h > 0);
    if (kind != NSV_SYS) for (int i = 0; i < 4; ++i) { a[i].v_x = a[i].v_y = i; if (i < 2) { b[i].v_x = b[i].v_y = i; a[i].m = b[i].m = 2; a[i].I = b[i].I = 1 + i; } }
    for (int k = 0; k < steps; ++k) { joint.sys().process(h, 1); alone.sys().process(h, 1); }
    for (int i = 0; i < 2; ++i) sameBody(a[i], b[i], "same");
    sameForces(c, d, "same"); sameForces(g, e, "same");
}
void c31_gs() { sweeps(1, false, NSV_SYS); }
void c31_gs2() { sweeps(2, true, NSV_SYS); }
void c31_gs_generic() { sweeps(2, true, GEN_EULER); }
// one free body among many constrained and driven ones
void c31_crowd() {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS);
    CrowdSolver as(false);
    Machine mc(kind, &as);
    Crowd t(36, 40, true);
    static const int AT[5] = {0, 8, 16, 31, 35};
    int at = AT[v_choice("at", 0, 4)];
    RigidBody lone; B6 q; symBody(lone, q, 45, true); lone.m = q.m[0] = 2; lone.I = q.m[2] = 3;
    for (int i = 0; i < 36; ++i) { if (i == at) mc.sys().addRigidBody(&lone); mc.sys().addRigidBody(&t.rb[i]); }
    for (int j = 0; j < 40; ++j) mc.sys().addConstraint(t.c[j]);
    mc.sys().addForceGenerator(&t.f);
    int n = kind == GEN_RK4 ? 1 : v_choice("steps", 1, 2);
    mc.sys().process(n * 0.5, n);
    B6 z; takeBody(lone, z);
    for (int k = 0; k < 3; ++k) { v_eq(z.v[k], q.v[k], "inertia"); v_eq(z.p[k], q.p[k] + n * 0.5 * q.v[k], "inertia"); }
    v_assert(lone.index == at, "inertia");
}
// two large groups in one system against two systems
static void crowds(SleSolver *s, int N, int M, int scales) {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, mix = v_choice("mix", 0, 2), scale = v_choice("scale", 0, scales);
    Machine joint(kind, s), one(kind, s), two(kind, s);
    Crowd a(N, M, true), b(N, M, true), x(N, M, true), y(N, M, true);
    for (int i = 0; i < N; ++i) {
        // the second group moves differently
        b.rb[i].v_x = y.rb[i].v_x = sym("bv", i, 0, 0); b.rb[i].v_theta = y.rb[i].v_theta = sym("bv", i, 0, 2); b.rb[i].m = y.rb[i].m = 5 + i % 2;
        if (scale) { Crowd &p = scale == 1 ? a : b, &q = scale == 1 ? x : y; p.rb[i].m = q.rb[i].m = (1 << 28) + i; p.rb[i].I = q.rb[i].I = 1 << 28; Crowd &o = scale == 1 ? b : a, &w = scale == 1 ? y : x; o.rb[i].m = w.rb[i].m = (1 + i % 2) / 1048576.0; o.rb[i].I = w.rb[i].I = 1 / 1048576.0; }
        if (i < M) b.c[i]->id = y.c[i]->id = i + 20;
        if (mix == 0) { joint.sys().addRigidBody(&a.rb[i]); joint.sys().addRigidBody(&b.rb[i]); if (i < M) { joint.sys().addConstraint(b.c[i]); joint.sys().addConstraint(a.c[i]); } }
        one.sys().addRigidBody(&x.rb[i]); two.sys().addRigidBody(&y.rb[i]);
        if (i < M) { one.sys().addConstraint(x.c[i]); two.sys().addConstraint(y.c[i]); }
    }
    if (mix) for (int w = 0; w < 2; ++w) for (int i = 0; i < N; ++i) { Crowd &c = (w ^ (mix == 2)) ? a : b; joint.sys().addRigidBody(&c.rb[i]); if (i < M) joint.sys().addConstraint((w ? a : b).c[i]); }
    joint.sys().addForceGenerator(&a.f); joint.sys().addForceGenerator(&b.f); one.sys().addForceGenerator(&x.f); two.sys().addForceGenerator(&y.f);
    double h = v_real("h"); v_assume(h > 0);
    joint.sys().process(h, 1); one.sys().process(h, 1); two.sys().process(h, 1);
    sameCrowd(a, x, "same", "same"); sameCrowd(b, y, "same", "same");
}
void c31_crowd_groups() {
    static const int N[4] = {20, 3, 2, 1}, M[4] = {20, 1, 0, 0};
    int z = v_choice("size", 0, 3);
    RowSolver s; crowds(&s, N[z], M[z], 0);
}
void c31_crowd_gauss() { GaussianEliminationSleSolver s; crowds(&s, 9, 5, 2); }
}
