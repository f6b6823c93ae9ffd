// C35 registration order and slots
#include "world.h"
#include "crowd.h"
//@ bound 3 bodies, 3 constraints (1 to 3 rows, every one- and two-body type in pairs), 2 forces; every permutation of each against the first, and slots left by removals; both systems, both integrators, 1 to 2 steps; masses (given in RK4 systems) and states arbitrary reals; slots {0, 1, 127, 128, 254, 255, 256, 257, 299} of systems of 300 bodies (thorough: also 511, 512, 700 of 701), 1 and 2 body constraints; library constraints and forces at ten pairs of slots among 300; three orders of 30 bodies and of 30 constraints (13 and 9 with the Gaussian solver)
//@ stub equation solver: a fixed function lambda = 2 b + J W 1 (thorough: J W J' b) + limits that treats all rows and columns alike (c35_gauss: the library's Gaussian solver; c35_slots_solvers: each of its three solvers)
//@ entry c35_order need=bodies,forces
//@ entry c35_types need=bodies,forces
//@ entry c35_gauss need=bodies,forces branch-ms=300
//@ entry c35_history need=bodies,forces
//@ entry c35_slots need=acts,others,reported budget=200
//@ entry c35_slots_solvers need=acts
//@ entry c35_library_forces need=bodies
//@ entry c35_slots_types need=same
//@ entry c35_slots_forces need=same
//@ entry c35_crowd need=bodies,forces
//@ entry c35_crowd_gauss need=bodies,forces
//@ entry c35_order4 thorough need=bodies,forces
//@ entry c35_types_more thorough need=bodies,forces
//@ entry c35_slots_more thorough need=acts,others,reported budget=600
struct EquiSolver : SleSolver {  // treats all rows and all columns alike
    int cross;  // 0: lambda = 2 b, 1: 2 b + J W 1, 2: 2 b + J W J' b
    EquiSolver(bool lim, int c) : SleSolver(lim), cross(c) {}
    bool go(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix *lim, Matrix *res) {
        int m = J.getHeight(), n = J.getWidth();
        res->resize(1, m);
        Matrix D; J.expand(&D);
        double *u = new double[n + 1];
        for (int j = 0; j < n; ++j) { u[j] = cross == 1; if (cross == 2) for (int i = 0; i < m; ++i) u[j] += D.get(j, i) * r.get(0, i); u[j] *= W.get(0, j); }
        for (int i = 0; i < m; ++i) {
            double s = 2 * r.get(0, i);
            if (cross) for (int j = 0; j < n; ++j) s += D.get(j, i) * u[j];
            if (lim) s += 3 * lim->get(0, i) - lim->get(1, i);
            res->set(0, i, s);
        }
        delete[] u;
        D.destroy();
        return true;
    }
    bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix *, Matrix *res) override { return go(J, W, r, nullptr, res); }
    bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix &l, Matrix *, Matrix *res) override { return go(J, W, r, &l, res); }
};
static const int P3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
struct World {
    SleSolver *so; Machine mc; RigidBody rb[3]; B6 q; StRow c0, c1, c2; StForce f0, f1; Constraint *c[3]; ForceGenerator *f[2];
    World(int kind, SleSolver *s) : so(s), mc(kind, s), c0(0, 1, 2), c1(1, 3, 1), c2(2, 2, 2), f0(0, &rb[0]), f1(1, &rb[2]) {
        for (int i = 0; i < 3; ++i) { symBody(rb[i], q, i, kind == GEN_RK4); if (kind == GEN_RK4) { rb[i].m = 1 + i; rb[i].I = 2 + i; } }
        c0.m_bodies[0] = &rb[1]; c0.m_bodies[1] = &rb[0]; c1.m_bodies[0] = &rb[2]; c2.m_bodies[0] = &rb[0]; c2.m_bodies[1] = &rb[2];
        c[0] = &c0; c[1] = &c1; c[2] = &c2; f[0] = &f0; f[1] = &f1;
    }
    void add(const int *pb, const int *pc, int pf, int nc = 3) {
        for (int i = 0; i < 3; ++i) mc.sys().addRigidBody(&rb[pb[i]]);
        for (int i = 0; i < 3; ++i) if (pc[i] < nc) mc.sys().addConstraint(c[pc[i]]);
        for (int i = 0; i < 2; ++i) mc.sys().addForceGenerator(f[i ^ pf]);
    }
};
static void same(World &a, World &b) {
    for (int i = 0; i < 3; ++i) sameBody(a.rb[i], b.rb[i], "bodies");
    for (int i = 0; i < 3; ++i) for (int r = 0; r < a.c[i]->getConstraintCount(); ++r) for (int k = 0; k < a.c[i]->m_bodyCount; ++k) for (int x = 0; x < 3; ++x) v_eq(reported(*b.c[i], r, k, x), reported(*a.c[i], r, k, x), "forces");
}
static void order(int steps, bool full) {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS);
    bool lim = kind == NSV_SYS && v_choice("limited", 0, 1);
    EquiSolver s(lim, kind == GEN_RK4 ? 0 : full ? 2 : 1);
    World a(kind, &s), b(kind, &s);
    int pb = v_choice("bodies", 0, 5), pc = v_choice("cons", 0, 5), pf = v_choice("force", 0, 1);
    if (!full) v_assume(pf == (pb + pc) % 2);
    a.add(P3[0], P3[0], 0); b.add(P3[pb], P3[pc], pf);
    double h = v_real("h"); v_assume(h > 0);
    a.mc.sys().process(h * steps, steps); b.mc.sys().process(h * steps, steps);
    same(a, b);
}
// the library's constraints in pairs
static void types(bool reg) {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    EquiSolver s(false, reg ? 2 : 1);
    Machine a(kind, &s), b(kind, &s);
    RigidBody ra[3], rb[3]; B6 q;
    for (int i = 0; i < 3; ++i) { symBody(ra[i], q, i); symBody(rb[i], q, i); }
    int t1 = v_choice("t1", 0, N_CON - 1), t2 = v_choice("t2", 0, N_CON - 1);
    v_assume(t1 != t2);
    Cons ca, cb;
    // three bodies: t1 on (0, 1), t2 on (1, 2)
    Cons *cs[2] = {&ca, &cb};
    for (int w = 0; w < 2; ++w) {
        RigidBody *r = w ? rb : ra;
        cs[w]->params(t1); cs[w]->params(t2);
        cs[w]->ge.m_neutral = false;
        cs[w]->bodies(t1, &r[0], &r[1]); cs[w]->bodies(t2, &r[1], &r[2]);
    }
    for (int i = 0; i < 3; ++i) a.sys().addRigidBody(&ra[i]);
    a.sys().addConstraint(&ca.get(t1)); a.sys().addConstraint(&ca.get(t2));
    int p = v_choice("bodies", 0, 5), pc = v_choice("cons", 0, 1);
    if (!reg) v_assume(p % 2 == 1 && pc == (p / 2 + t1) % 2);
    for (int i = 0; i < 3; ++i) b.sys().addRigidBody(&rb[P3[p][i]]);
    b.sys().addConstraint(&cb.get(pc ? t2 : t1)); b.sys().addConstraint(&cb.get(pc ? t1 : t2));
    double h = v_real("h"); v_assume(h > 0);
    a.sys().process(h, 1); b.sys().process(h, 1);
    for (int i = 0; i < 3; ++i) sameBody(ra[i], rb[i], "bodies");
    for (int w = 0; w < 2; ++w) {
        Constraint &x = ca.get(w ? t2 : t1), &y = cb.get(w ? t2 : t1);
        for (int r = 0; r < x.getConstraintCount(); ++r) for (int k = 0; k < x.m_bodyCount; ++k) for (int i = 0; i < 3; ++i) v_eq(reported(x, r, k, i), reported(y, r, k, i), "forces");
    }
}
// a system of N bodies with one constraint between two of its slots
struct Far : Constraint {
    Far(int bodies) : Constraint(2, bodies) {}
    void calculate(Output *o, SystemState *) override {
        *o = Output();
        for (int r = 0; r < 2; ++r) {
            for (int i = 0; i < 3 * m_bodyCount; ++i) { o->J[r][i] = sym("J", 0, r, i); o->J_dot[r][i] = sym("Jd", 0, r, i); }
            o->C[r] = v_realn("C", r); o->ks[r] = v_realn("ks", r); o->kd[r] = v_realn("kd", r); o->v_bias[r] = v_realn("vb", r);
            o->limits[r][0] = -DBL_MAX; o->limits[r][1] = DBL_MAX;
        }
    }
};
struct LamSolver : SleSolver {
    LamSolver(bool l) : SleSolver(l) {}
    bool solve(SparseMatrix<3> &J, Matrix &, Matrix &, Matrix *, Matrix *x) override { x->initialize(1, J.getHeight()); for (int i = 0; i < J.getHeight(); ++i) x->set(0, i, v_realn("lam", i)); return true; }
    bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix &, Matrix *p, Matrix *x) override { return solve(J, W, r, p, x); }
};
static void slots(const int *S, int ns, int N) {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    LamSolver s(false);
    Machine mc(kind, &s);
    RigidBody *rb = new RigidBody[N];
    int two = v_choice("two", 1, 2);
    int a = S[v_choice("a", 0, ns - 1)], b = S[v_choice("b", 0, ns - 1)];
    v_assume(two == 2 ? a != b : b == S[0]);
    B6 qa, qb;
    for (int i = 0; i < N; ++i) { rb[i].m = rb[i].I = 1; rb[i].p_x = i; rb[i].p_y = rb[i].theta = 0; rb[i].v_x = 1; rb[i].v_y = rb[i].v_theta = 0; }
    symBody(rb[a], qa, 0); if (two == 2) symBody(rb[b], qb, 1);
    Far c(two); c.m_bodies[0] = &rb[a]; if (two == 2) c.m_bodies[1] = &rb[b];
    for (int i = 0; i < N; ++i) mc.sys().addRigidBody(&rb[i]);
    mc.sys().addConstraint(&c);
    mc.sys().process(1, 1);
    for (int i = 0; i < N; ++i) {
        if (i == a || (two == 2 && i == b)) {
            B6 &q = i == a ? qa : qb;
            for (int k = 0; k < 3; ++k) {
                double f = 0;
                for (int r = 0; r < 2; ++r) { double x = sym("J", 0, r, (i == a ? 0 : 3) + k) * v_realn("lam", r); f += x; v_eq(reported(c, r, i == a ? 0 : 1, k), x, "reported"); }
                double v = k == 0 ? rb[i].v_x : k == 1 ? rb[i].v_y : rb[i].v_theta;
                v_eq(q.m[k] * (v - q.v[k]), f, "acts");
            }
        } else { v_eq(rb[i].v_x, 1, "others"); v_eq(rb[i].p_x, i + 1, "others"); v_eq(rb[i].v_y, 0, "others"); v_eq(rb[i].v_theta, 0, "others"); v_eq(rb[i].p_y, 0, "others"); v_eq(rb[i].theta, 0, "others"); }
    }
    v_reach("acts"); v_reach("others"); v_reach("reported");
    delete[] rb;
}
extern "C" {
void c35_order() { order(v_choice("steps", 1, 1), false); }
void c35_order4() { order(v_choice("steps", 1, 2), true); }
void c35_types() { types(false); }
void c35_types_more() { types(true); }
// two rows, the library's own exact solver
void c35_gauss() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    GaussianEliminationSleSolver s;
    Machine a(kind, &s), b(kind, &s);
    RigidBody ra[2], rb[2]; B6 q; ClutchConstraint ka, kb; FixedRotationConstraint fa, fb;
    for (int i = 0; i < 2; ++i) { symBody(ra[i], q, i); symBody(rb[i], q, i); }
    ka.setBody1(&ra[0]); ka.setBody2(&ra[1]); kb.setBody1(&rb[0]); kb.setBody2(&rb[1]);
    fa.setBody(&ra[1]); fb.setBody(&rb[1]); fa.m_rotation = fb.m_rotation = v_real("rot");
    fa.m_ks = fb.m_ks = v_real("ks"); fa.m_kd = fb.m_kd = v_real("kd"); ka.m_kd = kb.m_kd = v_real("kd2");
    int pb = v_choice("bodies", 0, 1), pc = v_choice("cons", 0, 1);
    for (int i = 0; i < 2; ++i) { a.sys().addRigidBody(&ra[i]); b.sys().addRigidBody(&rb[i ^ pb]); }
    a.sys().addConstraint(&ka); a.sys().addConstraint(&fa);
    if (pc) { b.sys().addConstraint(&fb); b.sys().addConstraint(&kb); } else { b.sys().addConstraint(&kb); b.sys().addConstraint(&fb); }
    double h = v_real("h"); v_assume(h > 0);
    a.sys().process(h, 1); b.sys().process(h, 1);
    for (int i = 0; i < 2; ++i) sameBody(ra[i], rb[i], "bodies");
    for (int k = 0; k < 2; ++k) v_eq(ka.F_t[0][k], kb.F_t[0][k], "forces");
    v_eq(fa.F_t[0][0], fb.F_t[0][0], "forces");
}
// slots left behind by removals
void c35_history() {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS);
    EquiSolver s(kind == NSV_SYS, kind != GEN_RK4);
    World a(kind, &s), b(kind, &s);
    RigidBody xb; B6 q; symBody(xb, q, 7); StRow xc(5, 2, 1); StForce xf(5, &xb); xc.m_bodies[0] = &b.rb[1];
    int when = v_choice("when", 0, 3);
    a.add(P3[0], P3[0], 0);
    RigidBodySystem &y = b.mc.sys();
    int ob = v_choice("ob", 0, 2), oc = v_choice("oc", 0, 2);
    for (int i = 0; i < 3; ++i) { if (i == when % 3) y.addRigidBody(&xb); y.addRigidBody(&b.rb[i]); }
    for (int i = 0; i < 3; ++i) { if (i == when % 3) y.addConstraint(&xc); y.addConstraint(b.c[i]); }
    if (when == 3) y.addForceGenerator(&xf);
    for (int i = 0; i < 2; ++i) y.addForceGenerator(b.f[i]);
    if (when != 3) y.addForceGenerator(&xf);
    y.removeForceGenerator(&xf); y.removeConstraint(&xc); y.removeRigidBody(&xb);
    y.removeRigidBody(&b.rb[ob]); y.removeConstraint(b.c[oc]); y.addConstraint(b.c[oc]); y.addRigidBody(&b.rb[ob]);
    double h = v_real("h"); v_assume(h > 0);
    a.mc.sys().process(h, 1); y.process(h, 1);
    same(a, b);
}
static const int SLOTS[] = {0, 1, 127, 128, 254, 255, 256, 257, 299};
void c35_slots() { slots(SLOTS, 9, 300); }
static const int MORE[] = {0, 255, 256, 510, 511, 512, 513, 700};
void c35_slots_more() { slots(MORE, 8, 701); }
// the library's own solvers in a large system: as in a system of the two bodies alone
void c35_slots_solvers() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, so = v_choice("solver", 0, 2);
    static const int S[] = {3, 255, 256, 259, 299};
    int a = S[v_choice("a", 0, 4)], b = S[v_choice("b", 0, 4)];
    if (a == b) v_assume(false);
    GaussianEliminationSleSolver g0, g1; GaussSeidelSleSolver s0, s1; ConjugateGradientSleSolver c0, c1;
    s0.m_minDelta = s1.m_minDelta = INFINITY; s0.m_maxIterations = s1.m_maxIterations = 1;
    SleSolver *p0 = so == 0 ? (SleSolver *)&g0 : so == 1 ? (SleSolver *)&s0 : &c0, *p1 = so == 0 ? (SleSolver *)&g1 : so == 1 ? (SleSolver *)&s1 : &c1;
    Machine big(kind, p0), two(kind, p1);
    RigidBody *rb = new RigidBody[300]; RigidBody tb[2];
    for (int i = 0; i < 300; ++i) { rb[i].m = rb[i].I = 1; rb[i].v_theta = 1; big.sys().addRigidBody(&rb[i]); }
    for (int i = 0; i < 2; ++i) {
        RigidBody *t[2] = {&tb[i], &rb[i ? b : a]};
        for (int w = 0; w < 2; ++w) { t[w]->m = 2; t[w]->I = 1 + i; t[w]->v_theta = i ? v_real("w") : -1; two.sys(); }
        two.sys().addRigidBody(&tb[i]);
    }
    ClutchConstraint kb, kt; RotationFrictionConstraint fb, ft;
    kb.setBody1(&rb[a]); kb.setBody2(&rb[b]); kt.setBody1(&tb[0]); kt.setBody2(&tb[1]); fb.setBody(&rb[b]); ft.setBody(&tb[1]);
    kb.m_kd = kt.m_kd = 1; fb.m_kd = ft.m_kd = 2;
    big.sys().addConstraint(&kb); two.sys().addConstraint(&kt);
    if (so < 2) { big.sys().addConstraint(&fb); two.sys().addConstraint(&ft); }
    v_allow_abort(so == 2);  // not converged
    big.sys().process(0.5, 1); two.sys().process(0.5, 1);
    v_allow_abort(0);
    sameBody(tb[0], rb[a], "acts"); sameBody(tb[1], rb[b], "acts"); sameForces(kt, kb, "reported");
    for (int i = 0; i < 300; ++i) if (i != a && i != b) v_assert(rb[i].v_theta == 1 && rb[i].v_x == 0, "others");
    delete[] rb;
}
// the library's forces in any order
void c35_library_forces() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    EquiSolver s(false, true);
    Machine m[2] = {Machine(kind, &s), Machine(kind, &s)};
    RigidBody rb[2][3]; B6 q; GravityForceGenerator g[2]; Spring sp[2]; StaticForceGenerator sf[2]; ConstantSpeedMotor mo[2];
    int pb = v_choice("bodies", 0, 5), pf = v_choice("forces", 0, 7);
    double dx = v_real("dx"), dy = v_real("dy");
    for (int w = 0; w < 2; ++w) {
        for (int i = 0; i < 3; ++i) symBody(rb[w][i], q, i);
        sp[w].m_body1 = &rb[w][0]; sp[w].m_body2 = &rb[w][1]; sp[w].m_ks = v_real("ks"); sp[w].m_kd = v_real("kd"); sp[w].m_restLength = v_real("rest");
        rb[w][1].p_x = rb[w][0].p_x + dx; rb[w][1].p_y = rb[w][0].p_y + dy;
        sf[w].m_body = &rb[w][2]; sf[w].setForce(v_real("fx"), v_real("fy")); sf[w].setPosition(v_real("ax"), v_real("ay"));
        mo[w].m_body0 = &rb[w][0]; mo[w].m_body1 = &rb[w][2]; mo[w].m_ks = v_real("mk"); mo[w].m_maxTorque = 5; mo[w].m_speed = v_real("speed"); mo[w].m_kd = 0;
        g[w].m_g = v_real("g");
        ForceGenerator *f[4] = {&sp[w], &g[w], &sf[w], &mo[w]};
        for (int i = 0; i < 3; ++i) m[w].sys().addRigidBody(&rb[w][w ? P3[pb][i] : i]);
        for (int i = 0; i < 4; ++i) m[w].sys().addForceGenerator(f[w ? (pf < 4 ? (i + pf) % 4 : (3 - i + pf) % 4) : i]);
    }
    double h = v_real("h"); v_assume(h > 0);
    for (int w = 0; w < 2; ++w) m[w].sys().process(h, 1);
    for (int i = 0; i < 3; ++i) sameBody(rb[0][i], rb[1][i], "bodies");
}
// large systems registered in other orders
static void crowd(int kind, SleSolver *s, int nb, int nc) {
    Machine a(kind, s), b(kind, s);
    Crowd x(nb, nc, true), y(nb, nc, true);
    int pb = v_choice("bodies", 0, 2), pc = v_choice("cons", 0, 2);
    x.add(a.sys());
    for (int i = 0; i < nb; ++i) b.sys().addRigidBody(&y.rb[pb == 0 ? i : pb == 1 ? nb - 1 - i : (7 * i + 4) % nb]);
    for (int j = 0; j < nc; ++j) b.sys().addConstraint(y.c[pc == 0 ? j : pc == 1 ? nc - 1 - j : (11 * j + 5) % nc]);
    b.sys().addForceGenerator(&y.f);
    double h = v_real("h"); v_assume(h > 0);
    a.sys().process(h, 1); b.sys().process(h, 1);
    sameCrowd(x, y, "bodies", "forces");
}
void c35_crowd() { int k = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER; EquiSolver s(k == NSV_SYS && v_choice("limited", 0, 1), 1); crowd(k, &s, 30, 30); }
void c35_crowd_gauss() { GaussianEliminationSleSolver s; crowd(v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, &s, 13, 9); }
// the library's constraints and forces between far slots: as between the first two of a small system
struct Far2 {
    SystemState s; int at[2];
    Far2(int n, int a, int b) {
        s.resize(n, 0);
        at[0] = a; at[1] = b;
        for (int i = 0; i < n; ++i) { s.p_x[i] = 3 * i; s.p_y[i] = i % 7; s.theta[i] = i % 5; s.v_x[i] = i % 11; s.v_y[i] = 1; s.v_theta[i] = 2; s.a_x[i] = s.a_y[i] = s.a_theta[i] = 0; s.f_x[i] = s.f_y[i] = s.t[i] = 0; s.m[i] = 1; }
        for (int k = 0; k < 2; ++k) {
            int i = at[k];
            s.p_x[i] = v_realn("px", k); s.p_y[i] = v_realn("py", k); s.theta[i] = v_realn("th", k); s.v_x[i] = v_realn("vx", k); s.v_y[i] = v_realn("vy", k); s.v_theta[i] = v_realn("vt", k); s.m[i] = v_realn("m", k);
        }
    }
    ~Far2() { s.destroy(); }
};
static void choose(int *a, int *b) { int p = v_choice("pair", 0, 9); static const int A[10] = {0, 299, 255, 256, 128, 127, 1, 257, 254, 40}, B[10] = {1, 0, 256, 0, 5, 128, 299, 1, 255, 200}; *a = A[p]; *b = B[p]; }
void c35_slots_types() {
    int k = v_choice("kind", 0, N_CON - 1), a, b;
    choose(&a, &b);
    Far2 near(2, 0, 1), far(300, a, b);
    Cons cs; RigidBody rb[2]; Constraint::Output o, u;
    cs.params(k); cs.bodies(k, &rb[0], &rb[1]);
    rb[0].index = 0; rb[1].index = 1; cs.get(k).calculate(&o, &near.s);
    rb[0].index = a; rb[1].index = b; cs.get(k).calculate(&u, &far.s);
    for (int r = 0; r < rowsOf(k); ++r) {
        v_eq(o.C[r], u.C[r], "same"); v_eq(o.v_bias[r], u.v_bias[r], "same"); v_eq(o.limits[r][0], u.limits[r][0], "same"); v_eq(o.limits[r][1], u.limits[r][1], "same"); v_eq(o.ks[r], u.ks[r], "same"); v_eq(o.kd[r], u.kd[r], "same");
        for (int c = 0; c < 3 * bodiesOf(k); ++c) { v_eq(o.J[r][c], u.J[r][c], "same"); v_eq(o.J_dot[r][c], u.J_dot[r][c], "same"); }
    }
}
void c35_slots_forces() {
    int k = v_choice("kind", 0, 3), a, b;
    choose(&a, &b);
    Far2 near(2, 0, 1), far(300, a, b);
    GravityForceGenerator g; Spring sp; StaticForceGenerator sf; ConstantSpeedMotor mo; RigidBody rb[2];
    g.m_g = v_real("g");
    sp.m_body1 = &rb[0]; sp.m_body2 = &rb[1]; sp.m_ks = v_real("ks"); sp.m_kd = v_real("kd"); sp.m_restLength = v_real("rest"); sp.m_p2_x = v_real("ax"); sp.m_p1_y = 1;
    sf.m_body = &rb[1]; sf.setForce(v_real("fx"), v_real("fy")); sf.setPosition(v_real("ax"), v_real("ay"));
    mo.m_body0 = &rb[0]; mo.m_body1 = &rb[1]; mo.m_ks = v_real("mk"); mo.m_maxTorque = 5; mo.m_speed = v_real("speed"); mo.m_kd = 0;
    ForceGenerator *f[4] = {&g, &sp, &sf, &mo};
    rb[0].index = 0; rb[1].index = 1; f[k]->apply(&near.s);
    rb[0].index = a; rb[1].index = b; f[k]->apply(&far.s);
    for (int e = 0; e < 2; ++e) { int i = far.at[e]; v_eq(near.s.f_x[e], far.s.f_x[i], "same"); v_eq(near.s.f_y[e], far.s.f_y[i], "same"); v_eq(near.s.t[e], far.s.t[i], "same"); }
    for (int i = 0; i < 300; ++i) if (i != a && i != b) { v_eq(far.s.f_x[i], 0, "same"); v_eq(far.s.f_y[i], k == 0 ? -g.m_g : 0, "same"); v_eq(far.s.t[i], 0, "same"); }
}
}
