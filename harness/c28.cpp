// C28 history independence
#include "world.h"
#include "crowd.h"
//@ bound up to 3 bodies, 3 constraints and 2 force generators before and after; histories: up to 3 earlier steps with other populations (grown, shrunk, emptied, reset), both systems, Euler and RK4; every value an arbitrary real; populations of 0, 2, 3, 17, 20, 33 and 40 bodies with up to 40 constraints following each other (concrete Jacobians; up to 14 bodies with 9 constraints through the Gaussian solver); a constraint whose body has left the system; two systems taking turns with one solver and integrator object or their own (Gaussian, Gauss-Seidel); frames 599 to 602 of a system against a new one
//@ stub equation solver: a fixed function of J, W, right side and limits (c28_generic, c28_nsv, c28_shrink, c28_rk4); c28_gauss uses the library's Gaussian solver on both sides; solver history independence itself is C05 and C08
//@ entry c28_generic need=same
//@ entry c28_nsv need=same
//@ entry c28_shrink need=same
//@ entry c28_rk4 need=same
//@ entry c28_gauss need=same
//@ entry c28_solver need=same
//@ entry c28_outside need=same
//@ entry c28_sharing need=same
//@ entry c28_crowd need=same
//@ entry c28_crowd_gauss need=same
//@ entry c28_frames need=same
//@ entry c28_deep thorough need=same
struct World {
    bool nsv; GenericRigidBodySystem g; OptimizedNsvRigidBodySystem n;
    EulerOdeSolver eu; Rk4OdeSolver rk;
    RigidBody rb[3]; B6 q[3];
    StRow c0, c1, c2; StRow *c[3]; StForce f0, f1; StForce *f[2];
    bool inB[3], inC[3], inF[2];
    World(bool nsv_, bool rk4, SleSolver *s) : nsv(nsv_), c0(0, 1, 2), c1(1, 2, 1), c2(2, 3, 2), f0(0, &rb[0]), f1(1, &rb[1]) {
        c[0] = &c0; c[1] = &c1; c[2] = &c2; f[0] = &f0; f[1] = &f1;
        for (int i = 0; i < 3; ++i) inB[i] = inC[i] = false;
        inF[0] = inF[1] = false;
        if (nsv) n.initialize(s); else g.initialize(s, rk4 ? (OdeSolver *)&rk : (OdeSolver *)&eu);
        c0.m_bodies[0] = &rb[0]; c0.m_bodies[1] = &rb[1];
        c1.m_bodies[0] = &rb[1];
        c2.m_bodies[0] = &rb[2]; c2.m_bodies[1] = &rb[0];
    }
    RigidBodySystem &sys() { return nsv ? (RigidBodySystem &)n : (RigidBodySystem &)g; }
    void set(int bodies, int cons, int forces) {  // bit masks
        for (int i = 0; i < 3; ++i) if (inC[i] && !(cons >> i & 1)) { sys().removeConstraint(c[i]); inC[i] = false; }
        for (int i = 0; i < 2; ++i) if (inF[i] && !(forces >> i & 1)) { sys().removeForceGenerator(f[i]); inF[i] = false; }
        for (int i = 0; i < 3; ++i) { bool w = bodies >> i & 1; if (w && !inB[i]) sys().addRigidBody(&rb[i]); if (!w && inB[i]) sys().removeRigidBody(&rb[i]); inB[i] = w; }
        for (int i = 0; i < 3; ++i) if (!inC[i] && (cons >> i & 1)) { sys().addConstraint(c[i]); inC[i] = true; }
        for (int i = 0; i < 2; ++i) if (!inF[i] && (forces >> i & 1)) { sys().addForceGenerator(f[i]); inF[i] = true; }
    }
    void clear() { sys().reset(); for (int i = 0; i < 3; ++i) rb[i].index = -1; for (int i = 0; i < 3; ++i) inB[i] = inC[i] = false; inF[0] = inF[1] = false; }
    void load(const char *) { for (int i = 0; i < 3; ++i) symBody(rb[i], q[i], i); for (int j = 0; j < 3; ++j) for (int r = 0; r < 3; ++r) for (int k = 0; k < 2; ++k) c[j]->F_x[r][k] = c[j]->F_y[r][k] = c[j]->F_t[r][k] = 0; }
    // what the last step left in the reports must not matter
    void poison() { for (int j = 0; j < 3; ++j) for (int r = 0; r < c[j]->getConstraintCount(); ++r) for (int k = 0; k < c[j]->m_bodyCount; ++k) c[j]->F_x[r][k] = c[j]->F_y[r][k] = c[j]->F_t[r][k] = 77 + r; }
    void concrete() { for (int i = 0; i < 3; ++i) { rb[i].v_x = i; rb[i].v_y = 2; rb[i].v_theta = 1; rb[i].p_x = i * 3; rb[i].p_y = 1; rb[i].theta = 1; rb[i].m = 2; rb[i].I = 4; } }
};
static const int BODIES[8] = {7, 3, 1, 0, 6, 4, 7, 3}, CONS[8] = {7, 1, 0, 0, 2, 0, 7, 2}, FORCES[8] = {3, 1, 1, 0, 2, 1, 0, 0};
static void history(bool nsv, bool rk4, int lim, int pre1, int pre2, int target, int steps, SleSolver *s, bool symbolicPast) {
    World a(nsv, rk4, s), b(nsv, rk4, s);
    (void)lim;
    if (symbolicPast) a.load(""); else a.concrete();
    int pre[2] = {pre1, pre2};
    for (int k = 0; k < 2; ++k) {
        if (pre[k] < 0) continue;
        if (pre[k] == 8) { a.clear(); a.sys().process(1, 1); continue; }
        a.set(BODIES[pre[k]], CONS[pre[k]], FORCES[pre[k]]);
        a.sys().process(2, 1 + k);
    }
    // same registration order on both sides
    a.set(0, 0, 0); a.set(BODIES[target], CONS[target], FORCES[target]);
    b.set(BODIES[target], CONS[target], FORCES[target]);
    a.load("x"); a.poison(); b.load("x");
    double dt = v_real("dt"); v_assume(dt > 0);
    a.sys().process(dt, steps);
    b.sys().process(dt, steps);
    for (int i = 0; i < 3; ++i) sameBody(a.rb[i], b.rb[i], "same");
    for (int j = 0; j < 3; ++j) if (a.inC[j]) sameForces(*a.c[j], *b.c[j], "same");
    v_assert(a.sys().getFullConstraintCount() == b.sys().getFullConstraintCount(), "same");
}
extern "C" {
void c28_generic() { FuncSolver s(false); history(false, false, 0, v_choice("pre1", 0, 8), v_choice("pre2", -1, 8), v_choice("target", 0, 7), 1, &s, false); }
void c28_nsv() { FuncSolver s(v_choice("limited", 0, 1)); history(true, false, 0, v_choice("pre1", 0, 4), v_choice("pre2", -1, 8), v_choice("target", 0, 7), 1, &s, false); }
void c28_rk4() { FuncSolver s(false); history(false, true, 0, v_choice("pre1", 0, 3), v_choice("pre2", -1, 3), v_choice("target", 1, 7), 1, &s, false); }
void c28_deep() { FuncSolver s(true); history(v_choice("nsv", 0, 1), v_choice("rk4", 0, 1), 0, v_choice("pre1", 0, 8), v_choice("pre2", -1, 8), v_choice("target", 0, 7), 2, &s, false); }
// hundreds of frames into the system's life
void c28_frames() {
    int kind = v_choice("kind", 0, 2), last = v_choice("last", 598, 600), pre = 1;
    bool nsv = kind == 2;
    FuncSolver s(nsv);
    World a(nsv, kind == 1, &s), b(nsv, kind == 1, &s);
    a.set(BODIES[pre], CONS[pre], FORCES[pre]);
    for (int k = 0; k < last; ++k) { a.concrete(); a.sys().process(2, 1); }
    a.set(0, 0, 0); a.set(7, 7, 3);
    b.set(7, 7, 3);
    double dt = v_real("dt"); v_assume(dt > 0);
    for (int k = 0; k < 2; ++k) {
        a.load("x"); a.poison(); b.load("x");
        if (k) for (int i = 0; i < 3; ++i) { a.rb[i].m = b.rb[i].m = 2 + i; a.rb[i].I = b.rb[i].I = 5 - i; }
        a.sys().process(dt, 1);
        b.sys().process(dt, 1);
        for (int i = 0; i < 3; ++i) sameBody(a.rb[i], b.rb[i], "same");
        for (int j = 0; j < 3; ++j) sameForces(*a.c[j], *b.c[j], "same");
    }
}
// elements removed one by one without rebuilding, symbolic past
void c28_shrink() {
    bool nsv = v_choice("nsv", 0, 1);
    FuncSolver s(nsv);
    World a(nsv, false, &s), b(nsv, false, &s);
    a.load("");
    a.set(7, 7, 3);
    a.sys().process(1, 1);
    int t = v_choice("target", 0, 4);
    static const int TB[5] = {7, 3, 3, 7, 3}, TC[5] = {3, 1, 0, 7, 1}, TF[5] = {3, 3, 1, 0, 0};
    a.set(TB[t], TC[t], TF[t]);
    b.set(TB[t], TC[t], TF[t]);
    a.load("x"); a.poison(); b.load("x");
    double dt = v_real("dt"); v_assume(dt > 0);
    a.sys().process(dt, 1); b.sys().process(dt, 1);
    for (int i = 0; i < 3; ++i) sameBody(a.rb[i], b.rb[i], "same");
    for (int j = 0; j < 3; ++j) if (a.inC[j]) sameForces(*a.c[j], *b.c[j], "same");
}
// the library's exact solver on both sides
void c28_gauss() {
    bool nsv = v_choice("nsv", 0, 1);
    GaussianEliminationSleSolver s, s2; EulerOdeSolver eu, eu2;
    GenericRigidBodySystem g, g2; OptimizedNsvRigidBodySystem n, n2;
    if (nsv) { n.initialize(&s); n2.initialize(&s2); } else { g.initialize(&s, &eu); g2.initialize(&s2, &eu2); }
    RigidBodySystem &a = nsv ? (RigidBodySystem &)n : (RigidBodySystem &)g, &b = nsv ? (RigidBodySystem &)n2 : (RigidBodySystem &)g2;
    RigidBody x[2], y[2], extra; B6 q[2];
    FixedRotationConstraint fx, fy, fe; ClutchConstraint cx, cy, ce; GravityForceGenerator gx, gy;
    for (int i = 0; i < 2; ++i) { symBody(x[i], q[i], i, true); symBody(y[i], q[i], i, true); }
    extra.m = 3; extra.I = 2; extra.v_theta = 5;
    fe.setBody(&extra); ce.setBody1(&extra); ce.setBody2(&x[1]);
    fx.setBody(&x[0]); fy.setBody(&y[0]);
    cx.setBody1(&x[0]); cx.setBody2(&x[1]); cy.setBody1(&y[0]); cy.setBody2(&y[1]);
    a.addForceGenerator(&gx);
    int past = v_choice("past", 0, 3);
    for (int i = 0; i < 2; ++i) a.addRigidBody(&x[i]);
    if (past & 1) { a.addRigidBody(&extra); a.addConstraint(&fe); a.addConstraint(&ce); }
    if (past & 2) a.addConstraint(&fx);
    for (int i = 0; i < 2; ++i) { RigidBody k = x[i]; x[i].v_x = 1; x[i].v_y = 2; x[i].v_theta = 3; x[i].p_x = 4; x[i].p_y = 5; x[i].theta = 6; if (i == 1) { a.process(1, 1); } (void)k; }
    if (past & 1) { a.removeConstraint(&ce); a.removeConstraint(&fe); a.removeRigidBody(&extra); }
    if (past & 2) a.removeConstraint(&fx);
    for (int i = 0; i < 2; ++i) { symBody(x[i], q[i], i, true); b.addRigidBody(&y[i]); }
    b.addForceGenerator(&gy);
    int what = v_choice("what", 0, 2);
    if (what > 0) { a.addConstraint(&cx); b.addConstraint(&cy); }
    if (what > 1) { a.addConstraint(&fx); b.addConstraint(&fy); }
    double dt = v_real("dt"); v_assume(dt > 0);
    a.process(dt, 1); b.process(dt, 1);
    for (int i = 0; i < 2; ++i) sameBody(x[i], y[i], "same");
    if (what > 0) sameForces(cx, cy, "same");
    if (what > 1) sameForces(fx, fy, "same");
}
// a second run of the same system from the same state gives the same result
void c28_solver() {
    bool nsv = v_choice("nsv", 0, 1);
    FuncSolver s(false);
    World a(nsv, false, &s), b(nsv, false, &s);
    int t = v_choice("target", 0, 7);
    a.load("x"); a.poison(); b.load("x");
    a.set(BODIES[t], CONS[t], FORCES[t]); b.set(BODIES[t], CONS[t], FORCES[t]);
    double dt = v_real("dt"); v_assume(dt > 0);
    a.sys().process(dt, 1);
    a.load("x"); a.poison();
    a.sys().process(dt, 1);
    b.sys().process(dt, 1);
    for (int i = 0; i < 3; ++i) sameBody(a.rb[i], b.rb[i], "same");
    for (int j = 0; j < 3; ++j) if (a.inC[j]) sameForces(*a.c[j], *b.c[j], "same");
}
// a body taken out while the constraint on it stays
void c28_outside() {
    bool nsv = v_choice("nsv", 0, 1);
    FuncSolver s(nsv && v_choice("limited", 0, 1));
    int kind = nsv ? NSV_SYS : v_choice("kind", GEN_EULER, GEN_RK4);
    Machine ma(kind, &s), mb(kind, &s);
    RigidBody x[3], y[3]; B6 q;
    ClutchConstraint cx, cy; SimpleGearConstraint gx, gy;
    for (int i = 0; i < 3; ++i) { symBody(x[i], q, i, true); symBody(y[i], q, i, true); ma.sys().addRigidBody(&x[i]); }
    cx.setBody1(&x[0]); cx.setBody2(&x[1]); cy.setBody1(&y[0]); cy.setBody2(&y[1]);
    gx.setBody1(&x[2]); gx.setBody2(&x[0]); gy.setBody1(&y[2]); gy.setBody2(&y[0]);
    gx.m_ratio = gy.m_ratio = v_real("ratio");
    ma.sys().addConstraint(&cx); ma.sys().addConstraint(&gx);
    ma.sys().process(0.5, 1);
    int out = v_choice("out", 0, 2);
    ma.sys().removeRigidBody(&x[out]);
    static const int SLOTS[3][2] = {{2, 1}, {0, 2}, {0, 1}};  // the last body takes the free slot
    for (int k = 0; k < 2; ++k) mb.sys().addRigidBody(&y[SLOTS[out][k]]);
    mb.sys().addConstraint(&cy); mb.sys().addConstraint(&gy);
    for (int i = 0; i < 3; ++i) { symBody(x[i], q, i + 5, true); symBody(y[i], q, i + 5, true); }
    double dt = v_real("dt"); v_assume(dt > 0);
    ma.sys().process(dt, 1); mb.sys().process(dt, 1);
    for (int i = 0; i < 3; ++i) sameBody(x[i], y[i], "same");
    sameForces(cx, cy, "same"); sameForces(gx, gy, "same");
}
// several systems taking turns, with one solver and one integrator between them or with their own
static void sharing(SleSolver *one, SleSolver *two, SleSolver *alone, bool plain = false) {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS);
    Machine m[3] = {{kind, one}, {kind, two}, {kind, alone}};
    if (kind == GEN_RK4 && one == two) { m[1].g.initialize(two, &m[0].rk); }
    RigidBody b[3][2]; B6 q;
    ClutchConstraint c[3]; SimpleGearConstraint g[3]; GravityForceGenerator f[3];
    const bool gear = v_choice("gear", 0, 1) == 1;
    for (int k = 0; k < 3; ++k) {
        for (int i = 0; i < 2; ++i) {
            symBody(b[k][i], q, i, true);
            b[k][i].m = 2 + i; b[k][i].I = 3 - i; b[k][i].theta = i; 
            if (plain) { b[k][i].v_x = i + 1; b[k][i].v_y = 2; b[k][i].p_x = 4 * i; b[k][i].p_y = -1; if (i) b[k][i].v_theta = -2; }
            if (k == 1) { b[k][i].v_theta = 3 - 5 * i; b[k][i].v_x = 1; b[k][i].v_y = 2; b[k][i].p_x = b[k][i].p_y = 7; b[k][i].m = 1; b[k][i].I = 8; }
            m[k].sys().addRigidBody(&b[k][i]);
        }
        c[k].setBody1(&b[k][0]); c[k].setBody2(&b[k][1]);
        g[k].setBody1(&b[k][1]); g[k].setBody2(&b[k][0]); g[k].m_ratio = k == 1 ? 2 : 0.5;
        m[k].sys().addConstraint(&c[k]);
        if (gear && k != 1) m[k].sys().addConstraint(&g[k]);
        m[k].sys().addForceGenerator(&f[k]);
    }
    double dt = 0.125;
    if (!plain) { dt = v_real("dt"); v_assume(dt > 0); }
    const int order = v_choice("order", 0, 2);
    for (int t = 0; t < 2; ++t) {
        if (order == 1) m[1].sys().process(0.5, 1);
        m[0].sys().process(t ? 0.25 : dt, 1);
        if (order != 1) m[1].sys().process(order ? 0.5 : 0.25, 1 + order);
    }
    for (int t = 0; t < 2; ++t) m[2].sys().process(t ? 0.25 : dt, 1);
    for (int i = 0; i < 2; ++i) sameBody(b[0][i], b[2][i], "same");
    sameForces(c[0], c[2], "same");
    if (gear) sameForces(g[0], g[2], "same");
}
void c28_sharing() {
    int which = v_choice("solver", 0, 4);
    GaussianEliminationSleSolver e[3]; GaussSeidelSleSolver s[3];
    for (int i = 0; i < 3; ++i) { s[i].m_maxIterations = 2; s[i].m_minDelta = INFINITY; }
    if (which == 0) sharing(&e[0], &e[0], &e[1]);
    if (which == 1) sharing(&e[0], &e[1], &e[2]);
    if (which == 2) sharing(&s[0], &s[0], &s[1], true);
    if (which == 3) sharing(&s[0], &s[1], &s[2], true);
    if (which == 4) { FuncSolver u(false); sharing(&u, &u, &u); }
}
// large populations grown, shrunk and replaced
static const int CBODIES[2][7] = {{40, 3, 17, 0, 33, 20, 2}, {14, 14, 14, 0, 14, 14, 14}}, CCONS[2][7] = {{40, 2, 30, 0, 5, 0, 1}, {9, 1, 4, 0, 6, 0, 2}};
static void populate(RigidBodySystem &s, Crowd &t, int k, int real) {
    s.reset();
    for (int i = 0; i < t.nb; ++i) t.rb[i].index = -1;
    for (int i = 0; i < CBODIES[real][k]; ++i) s.addRigidBody(&t.rb[i]);
    for (int j = 0; j < CCONS[real][k]; ++j) s.addConstraint(t.c[j]);
    s.addForceGenerator(&t.f);
}
static void crowd(int kind, SleSolver *s, SleSolver *s2, int real) {
    Machine a(kind, s), b(kind, s2);
    Crowd x(CBODIES[real][0], CCONS[real][0], true), y(CBODIES[real][0], CCONS[real][0], true);
    x.renew(true, 0);
    for (int j = 0; j < x.nc; ++j) x.c[j]->calls = 2;
    int p = v_choice("past", 0, 6), now = v_choice("now", 0, 6);
    populate(a.sys(), x, p, real);
    a.sys().process(0.5, 1);
    if (v_choice("twice", 0, 1)) { populate(a.sys(), x, 6 - p, real); a.sys().process(2, 2); }
    x.again(true);
    populate(a.sys(), x, now, real); populate(b.sys(), y, now, real);
    double dt = v_real("dt"); v_assume(dt > 0);
    a.sys().process(dt, 1); b.sys().process(dt, 1);
    sameCrowd(x, y, "same", "same");
}
void c28_crowd() { int k = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER; FuncSolver s(k == NSV_SYS); crowd(k, &s, &s, 0); }
void c28_crowd_gauss() { GaussianEliminationSleSolver s, t; crowd(v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, &s, &t, 1); }
}
