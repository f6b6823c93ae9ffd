// C41 the two ends of an interaction are interchangeable
#include "twin.h"
//@ bound 3 bodies with one or two links and clutches in either order at any slots under arbitrary forces, a spring or a motor between two bodies (one end optionally outside the system); all three systems, 1 to 2 sub-steps; all values arbitrary reals; multipliers arbitrary, with the opposite sign for the exchanged element; the equations and limits handed to the solver are compared; a gear against the exchanged gear of the inverse ratio by the library's Gaussian solver
//@ stub equation solver: arbitrary multipliers, in the second world of opposite sign (c41_gear: the library's)
//@ entry c41_ends need=body,equation,force
//@ entry c41_limits need=limits
//@ entry c41_pair need=body,equation,force
//@ entry c41_rk4 need=body,equation,force
//@ entry c41_forces need=body branch-ms=150 budget=200
//@ entry c41_outside need=body branch-ms=150 budget=200
//@ entry c41_gear need=body,force
static Frame ends() { Frame f; f.swap = true; return f; }
static int system() { return v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER; }
extern "C" {
void c41_ends() { int k = system(); twins(k, ends(), 1, 3, v_choice("steps", 1, 2), PAIR_KINDS); }
void c41_limits() { twins(NSV_SYS, ends(), 1, 2, 1, PAIR_KINDS, true); }
void c41_pair() { int k = system(); twins(k, ends(), 2, 3, 1, ALL_KINDS & ~(1 << ROLL) & ~(1 << GEAR)); }
void c41_rk4() { twins(GEN_RK4, ends(), 1, 2, 1, 1 << CLUTCH); }
void c41_forces() { int k = system(); twinForces(k, ends(), v_choice("what", 0, 1), v_choice("steps", 1, 1)); }
// one end of the spring held by a body that is not part of the system
void c41_outside() {
    int kind = system();
    FuncSolver fs(false);
    Machine A(kind, &fs), B(kind, &fs);
    RigidBody rb[2], out; B6 q;
    for (int i = 0; i < 2; ++i) symBody(rb[i], q, 0);
    symBody(out, q, 1);
    A.sys().addRigidBody(&rb[0]); B.sys().addRigidBody(&rb[1]);
    Spring s[2];
    for (int i = 0; i < 2; ++i) { s[i].m_ks = v_real("ks"); s[i].m_kd = v_real("kd"); s[i].m_restLength = v_real("len"); }
    s[0].m_body1 = &rb[0]; s[0].m_body2 = &out; s[0].m_p1_x = v_real("a"); s[0].m_p1_y = v_real("b"); s[0].m_p2_x = v_real("c"); s[0].m_p2_y = v_real("d");
    s[1].m_body2 = &rb[1]; s[1].m_body1 = &out; s[1].m_p2_x = v_real("a"); s[1].m_p2_y = v_real("b"); s[1].m_p1_x = v_real("c"); s[1].m_p1_y = v_real("d");
    v_eq(s[0].energy(), s[1].energy(), "energy");
    A.sys().addForceGenerator(&s[0]); B.sys().addForceGenerator(&s[1]);
    double h = v_real("h"); v_assume(h > 0);
    A.sys().process(h, 1); B.sys().process(h, 1);
    sameBody(rb[0], rb[1], "body");
}
void c41_gear() {
    GaussianEliminationSleSolver ge;
    int kind = system();
    Machine A(kind, &ge), B(kind, &ge);
    RigidBody a[2], b[2]; B6 q;
    for (int i = 0; i < 2; ++i) { symBody(a[i], q, i); symBody(b[i], q, i); A.sys().addRigidBody(&a[i]); B.sys().addRigidBody(&b[i]); }
    double r = v_real("ratio"); v_assume(r != 0);
    SimpleGearConstraint g, o;
    g.setBody1(&a[0]); g.setBody2(&a[1]); g.m_ratio = r;
    o.setBody1(&b[1]); o.setBody2(&b[0]); o.m_ratio = 1 / r;
    g.m_ks = o.m_ks = v_real("ks"); g.m_kd = o.m_kd = v_real("kd");
    A.sys().addConstraint(&g); B.sys().addConstraint(&o);
    StForce f(0, &a[0]), e(0, &b[0]);
    A.sys().addForceGenerator(&f); B.sys().addForceGenerator(&e);
    double h = v_real("h"); v_assume(h > 0);
    A.sys().process(h, 1); B.sys().process(h, 1);
    for (int i = 0; i < 2; ++i) { sameBody(a[i], b[i], "body"); for (int c = 0; c < 3; ++c) v_eq(reported(g, 0, i, c), reported(o, 0, 1 - i, c), "force"); }
}
}
