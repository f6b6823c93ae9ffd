// C22 speed motor
#include "con.h"
//@ bound states of 3 bodies, every pair of distinct slots; any of ten pairs of slots among 300 bodies, base in or out of the system; every velocity, acceleration and setting an arbitrary real (finite limits), the torque bound also for infinite and NaN velocities and gains
//@ entry c22_motor need=torque,balance,untouched
//@ entry c22_world need=torque,untouched
//@ entry c22_bound need=bound
static const int TQS = 1 << TQ;
extern "C" {
static void conf(ConstantSpeedMotor &m) {
    m.m_ks = v_real("ks"); m.m_kd = v_real("kd"); m.m_maxTorque = v_real("max"); m.m_speed = v_real("speed");
    v_assume(m.m_maxTorque >= 0);
}
static double want(ConstantSpeedMotor &m, double rv, double ra) {
    return std::fmin(m.m_maxTorque, std::fmax(-m.m_maxTorque, (m.m_speed - rv) * m.m_ks - ra * m.m_kd));
}
void c22_motor() {
    ConstantSpeedMotor m; RigidBody rb[2], &a = rb[0], &b = rb[1]; SystemState s; SnapBig q;
    conf(m);
    m.m_body0 = &a; m.m_body1 = &b;
    int n = v_choice("wide", 0, 1) ? FAR_N : 3;
    slots(rb, 2, n);
    symState(s, q, "s", n, 1);
    m.apply(&s);
    double T = want(m, q.b[V_T][b.index] - q.b[V_T][a.index], q.b[A_T][b.index] - q.b[A_T][a.index]);
    v_eq(s.t[b.index], q.b[TQ][b.index] + T, "torque");
    v_eq(s.t[a.index], q.b[TQ][a.index] - T, "balance");
    for (int o = 0; o < n; ++o) if (o != a.index && o != b.index) v_eq(s.t[o], q.b[TQ][o], "untouched");
    sameState(s, q, "untouched", TQS);
    s.destroy();
}
void c22_world() {
    ConstantSpeedMotor m; RigidBody a, b; SystemState s; SnapBig q;
    conf(m);
    m.m_body0 = &a; m.m_body1 = &b;
    a.v_theta = v_real("base-speed"); a.index = -1;
    int n = v_choice("wide", 0, 1) ? FAR_N : 3;
    b.index = v_choice("s1", 0, 2);
    if (n == FAR_N) b.index = b.index == 0 ? 128 : b.index == 1 ? 256 : 299;
    symState(s, q, "s", n, 1);
    m.apply(&s);
    double T = want(m, q.b[V_T][b.index], q.b[A_T][b.index]);
    for (int i = 0; i < n; ++i) v_eq(s.t[i], q.b[TQ][i] + (i == b.index ? T : 0), i == b.index ? "torque" : "untouched");
    sameState(s, q, "untouched", TQS);
    v_eq(a.v_theta, v_real("base-speed"), "untouched");
    s.destroy();
}
// within plus or minus the maximum whatever the inputs
void c22_bound() {
    ConstantSpeedMotor m; RigidBody a, b; SystemState s;
    m.m_body0 = &a; m.m_body1 = &b;
    bool world = v_choice("world", 0, 1);
    a.index = world ? -1 : 0; b.index = 1;
    s.resize(2, 0);
    for (int i = 0; i < 2; ++i) { s.t[i] = 0; s.v_theta[i] = i ? v_ext("v1") : v_real("v0"); s.a_theta[i] = i ? v_ext("a1") : v_real("a0"); }
    m.m_ks = v_ext("ks"); m.m_kd = v_choice("kd0", 0, 1) ? v_real("kd") : 0; m.m_maxTorque = v_real("max"); m.m_speed = v_real("speed");
    v_assume(m.m_maxTorque >= 0);
    m.apply(&s);
    v_le(s.t[1], m.m_maxTorque, "bound"); v_le(-m.m_maxTorque, s.t[1], "bound");
    v_le(s.t[0], m.m_maxTorque, "bound"); v_le(-m.m_maxTorque, s.t[0], "bound");
    s.destroy();
}
}
