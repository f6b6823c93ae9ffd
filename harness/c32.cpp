// C32 momentum
#include "world.h"
#include "crowd.h"
//@ bound 2 to 3 bodies, up to 3 links/clutches/springs at every slot order, both systems and integrators, 1 to 2 sub-steps; poses, velocities, masses, anchors, stiffness, step arbitrary reals; multipliers arbitrary (solver stand-in), so whether or not limits are active; 24 bodies with 24 links, clutches and springs (concrete poses)
//@ stub equation solver: arbitrary multipliers (c32_links, c32_rk4, c32_clutch); c32_gauss, c32_limited use the library's solvers
//@ entry c32_links need=linear
//@ entry c32_springs need=linear,gravity branch-ms=150
//@ entry c32_rk4 need=linear
//@ entry c32_clutch need=angular,linear
//@ entry c32_gauss need=linear,angular
//@ entry c32_limited need=linear,angular
//@ entry c32_substeps need=linear
//@ entry c32_crowd need=linear,angular
struct Mom { double x, y, w; };
static Mom momentum(RigidBody *rb, int n) { Mom m = {0, 0, 0}; for (int i = 0; i < n; ++i) { m.x += rb[i].m * rb[i].v_x; m.y += rb[i].m * rb[i].v_y; m.w += rb[i].I * rb[i].v_theta; } return m; }
static double weight(RigidBody *rb, int n, double g) { double s = 0; for (int i = 0; i < n; ++i) s += rb[i].m * g; return s; }
static void linear(Mom a, Mom b, double impulse) { v_eq(b.x, a.x, "linear"); v_eq(b.y, a.y - impulse, "linear"); }
extern "C" {
// links and clutches between any bodies, any multipliers, gravity or not
void c32_links() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    AnySolver as(kind == NSV_SYS && v_choice("limited", 0, 1));
    Machine mc(kind, &as);
    RigidBody rb[3]; B6 q[3];
    for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    LinkConstraint l[2]; ClutchConstraint c; GravityForceGenerator g;
    int s = v_choice("slots", 0, 5), a = s % 3, b = (a + 1 + s / 3) % 3, t = 3 - a - b;
    l[0].setBody1(&rb[a]); l[0].setBody2(&rb[b]); l[1].setBody1(&rb[t]); l[1].setBody2(&rb[a]); c.setBody1(&rb[b]); c.setBody2(&rb[t]);
    for (int i = 0; i < 2; ++i) { l[i].setLocalPosition1(v_realn("l1x", i), v_realn("l1y", i)); l[i].setLocalPosition2(v_realn("l2x", i), v_realn("l2y", i)); l[i].m_maxForce = v_realn("mf", i); l[i].m_ks = v_realn("ks", i); l[i].m_kd = v_realn("kd", i); }
    mc.sys().addConstraint(&l[0]); mc.sys().addConstraint(&c);
    if (v_choice("second", 0, 1)) mc.sys().addConstraint(&l[1]);
    bool grav = v_choice("gravity", 0, 1) != 0;
    g.m_g = v_real("g");
    if (grav) mc.sys().addForceGenerator(&g);
    double h = v_real("h"); v_assume(h > 0);
    Mom m0 = momentum(rb, 3);
    mc.sys().process(h, 1);
    linear(m0, momentum(rb, 3), grav ? h * weight(rb, 3, g.m_g) : 0);
}
void c32_substeps() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    AnySolver as(false);
    Machine mc(kind, &as);
    RigidBody rb[2]; B6 q[2];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    LinkConstraint l; ClutchConstraint c; GravityForceGenerator g;
    int s = v_choice("slot", 0, 1);
    l.setBody1(&rb[s]); l.setBody2(&rb[1 - s]); l.setLocalPosition1(0, 0); l.setLocalPosition2(v_real("ax"), 0); rb[1 - s].theta = 0; rb[1 - s].v_theta = 0;
    c.setBody1(&rb[0]); c.setBody2(&rb[1]);
    mc.sys().addConstraint(&l); mc.sys().addConstraint(&c); mc.sys().addForceGenerator(&g);
    g.m_g = v_real("g");
    double h = v_real("h"); v_assume(h > 0);
    Mom m0 = momentum(rb, 2);
    mc.sys().process(2 * h, 2);
    linear(m0, momentum(rb, 2), 2 * h * weight(rb, 2, g.m_g));
}
// springs, damped, eccentric, between two of three bodies
void c32_springs() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    AnySolver as(false);
    Machine mc(kind, &as);
    RigidBody rb[3]; B6 q[3];
    for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    Spring sp, sq; GravityForceGenerator g;
    int s = v_choice("slots", 0, 5), a = s % 3, b = (a + 1 + s / 3) % 3, t = 3 - a - b;
    sp.m_body1 = &rb[a]; sp.m_body2 = &rb[b]; sp.m_ks = v_real("ks"); sp.m_kd = v_real("kd"); sp.m_restLength = v_real("rest");
    sp.m_p1_x = v_real("p1x"); sp.m_p1_y = v_real("p1y"); sp.m_p2_x = v_real("p2x"); sp.m_p2_y = v_real("p2y");
    sq.m_body1 = &rb[b]; sq.m_body2 = &rb[t]; sq.m_ks = v_real("ks2"); sq.m_kd = 1;
    mc.sys().addForceGenerator(&sp); mc.sys().addForceGenerator(&g);
    bool two = v_choice("two", 0, 1) != 0;
    if (two) mc.sys().addForceGenerator(&sq);
    // no generality lost: the ends are placed at arbitrary distances (dx, dy), (ex, ey) from each other
    double dx = v_real("dx"), dy = v_real("dy"), ex = v_real("ex"), ey = v_real("ey");
    v_assume(ex * ex + ey * ey >= 0.0001);
    double wx, wy, ox, oy;
    rb[a].localToWorld(sp.m_p1_x, sp.m_p1_y, &wx, &wy); rb[b].localToWorld(sp.m_p2_x, sp.m_p2_y, &ox, &oy);
    rb[b].p_x = wx + dx - (ox - rb[b].p_x); rb[b].p_y = wy + dy - (oy - rb[b].p_y);
    rb[t].p_x = rb[b].p_x + ex; rb[t].p_y = rb[b].p_y + ey;
    g.m_g = v_real("g");
    double h = v_real("h"); v_assume(h > 0);
    Mom m0 = momentum(rb, 3);
    mc.sys().process(h, 1);
    linear(m0, momentum(rb, 3), h * weight(rb, 3, g.m_g));
    v_reach("gravity");
}
void c32_rk4() {
    AnySolver as(false);
    Machine mc(GEN_RK4, &as);
    RigidBody rb[2]; B6 q[2];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    LinkConstraint l; ClutchConstraint c; GravityForceGenerator g;
    int s = v_choice("slot", 0, 1);
    // the link's force depends on the arbitrary multipliers only along x and y
    l.setBody1(&rb[s]); l.setBody2(&rb[1 - s]);
    c.setBody1(&rb[0]); c.setBody2(&rb[1]);
    mc.sys().addConstraint(&l); mc.sys().addConstraint(&c);
    bool grav = v_choice("gravity", 0, 1) != 0;
    g.m_g = v_real("g");
    if (grav) mc.sys().addForceGenerator(&g);
    double h = v_real("h"); v_assume(h > 0);
    Mom m0 = momentum(rb, 2);
    mc.sys().process(h, 1);
    linear(m0, momentum(rb, 2), grav ? h * weight(rb, 2, g.m_g) : 0);
}
void c32_clutch() {
    int kind = v_choice("kind", GEN_EULER, NSV_SYS);
    AnySolver as(kind == NSV_SYS && v_choice("limited", 0, 1));
    Machine mc(kind, &as);
    RigidBody rb[3]; B6 q[3];
    for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    ClutchConstraint c[2];
    int s = v_choice("slots", 0, 5), a = s % 3, b = (a + 1 + s / 3) % 3, t = 3 - a - b;
    c[0].setBody1(&rb[a]); c[0].setBody2(&rb[b]); c[1].setBody1(&rb[t]); c[1].setBody2(&rb[b]);
    for (int i = 0; i < 2; ++i) { c[i].m_maxTorque = v_realn("hi", i); c[i].m_minTorque = v_realn("lo", i); mc.sys().addConstraint(&c[i]); }
    int n = v_choice("steps", 1, 2);
    double h = v_real("h"); v_assume(h > 0);
    Mom m0 = momentum(rb, 3);
    mc.sys().process(n * h, n);
    Mom m1 = momentum(rb, 3);
    v_eq(m1.w, m0.w, "angular");
    linear(m0, m1, 0);
}
static void real(SleSolver *s, int kind, double T) {
    Machine mc(kind, s);
    RigidBody rb[2]; B6 q[2];
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    ClutchConstraint c; GravityForceGenerator g;
    c.setBody1(&rb[0]); c.setBody2(&rb[1]); c.m_maxTorque = T; c.m_minTorque = -T;
    mc.sys().addConstraint(&c); mc.sys().addForceGenerator(&g);
    double h = v_real("h"); v_assume(h > 0);
    Mom m0 = momentum(rb, 2);
    mc.sys().process(h, 1);
    Mom m1 = momentum(rb, 2);
    v_eq(m1.w, m0.w, "angular");
    linear(m0, m1, h * weight(rb, 2, 9.81));
}
void c32_gauss() { GaussianEliminationSleSolver g; real(&g, v_choice("kind", GEN_EULER, NSV_SYS), 1); }
void c32_limited() { GaussSeidelSleSolver g; g.m_maxIterations = 1; g.m_minDelta = INFINITY; double T = v_real("T"); v_assume(T >= 0); real(&g, NSV_SYS, T); }
// a large mechanism of links, clutches and springs
void c32_crowd() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    bool links = v_choice("links", 0, 1);
    CrowdSolver as(kind == NSV_SYS && v_choice("limited", 0, 1));
    Machine mc(kind, &as);
    static const int N = 24;
    RigidBody rb[N]; B6 q; LinkConstraint l[N]; ClutchConstraint c[N]; Spring sp[N];
    for (int i = 0; i < N; ++i) { symBody(rb[i], q, i, true); rb[i].m = 1 + i % 3; rb[i].I = 2 + i % 4; rb[i].p_x = 5 * i; rb[i].p_y = 0; rb[i].theta = 0; mc.sys().addRigidBody(&rb[i]); }
    for (int i = 0; i < N; ++i) {
        int a = (7 * i + 3) % N, b = (5 * i + 2) % N;
        if (a == b) b = (b + 1) % N;
        l[i].setBody1(&rb[a]); l[i].setBody2(&rb[b]); l[i].setLocalPosition1(i, 1); l[i].setLocalPosition2(2, i);
        c[i].setBody1(&rb[b]); c[i].setBody2(&rb[(i + 9) % N]);
        if (b == (i + 9) % N) c[i].setBody2(&rb[(i + 10) % N]);
        c[i].m_maxTorque = v_realn("hi", i); c[i].m_minTorque = v_realn("lo", i);
        if (links) mc.sys().addConstraint(&l[i]);
        mc.sys().addConstraint(&c[i]);
        sp[i].m_body1 = &rb[i]; sp[i].m_body2 = &rb[(i + 1) % N]; sp[i].m_ks = v_realn("ks", i); sp[i].m_kd = v_realn("kd", i); sp[i].m_restLength = 1;
        if (links) mc.sys().addForceGenerator(&sp[i]);
    }
    GravityForceGenerator g; g.m_g = v_real("g"); mc.sys().addForceGenerator(&g);
    double h = v_real("h"); v_assume(h > 0);
    Mom m0 = momentum(rb, N);
    mc.sys().process(h, 1);
    Mom m1 = momentum(rb, N);
    linear(m0, m1, h * weight(rb, N, g.m_g));
    if (!links) v_eq(m1.w, m0.w, "angular");
}
}
