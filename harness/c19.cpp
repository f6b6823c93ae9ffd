// C19 action and reaction
#include "con.h"
//@ bound the four two-body constraints, states of 3 bodies, every pair of distinct slots; any of ten pairs of slots among 300 bodies; every pose, parameter, row multiplier and reference point an arbitrary real (rolling direction: unit)
//@ entry c19_link need=force-balance,moment-balance,rigid
//@ entry c19_roll need=force-balance,moment-balance,rigid
//@ entry c19_far need=force-balance,moment-balance,rigid
//@ entry c19_rotation need=force-balance,torque-balance,rigid
template <class Q> static void check(int k, int satisfied, int n = 3) {
    Cons cs; RigidBody rb[2]; SystemState s; Q q; Constraint::Output o;
    cs.params(k);
    cs.bodies(k, &rb[0], &rb[1]);
    slots(rb, bodiesOf(k), n);
    symState(s, q, "s", n, 2);
    int a = rb[0].index, b = rb[1].index;
    double ca = std::cos(s.theta[a]), sa = std::sin(s.theta[a]);
    if (k == ROLL) { double al = v_real("al"); cs.ro.m_dx = std::cos(al); cs.ro.m_dy = std::sin(al); }
    if (satisfied && k == LINK) {
        double cb = std::cos(s.theta[b]), sb = std::sin(s.theta[b]);
        s.p_x[b] = s.p_x[a] + ca * v_real("pa") - sa * v_real("pb") - (cb * v_real("pc") - sb * v_real("pd"));
        s.p_y[b] = s.p_y[a] + sa * v_real("pa") + ca * v_real("pb") - (sb * v_real("pc") + cb * v_real("pd"));
    }
    if (satisfied && k == ROLL) {
        double r = cs.ro.m_radius, u = v_real("u");
        double dx = ca * cs.ro.m_dx - sa * cs.ro.m_dy, dy = sa * cs.ro.m_dx + ca * cs.ro.m_dy;
        s.p_x[b] = s.p_x[a] + ca * v_real("pa") - sa * v_real("pb") + u * dx - r * dy;
        s.p_y[b] = s.p_y[a] + sa * v_real("pa") + ca * v_real("pb") + u * dy + r * dx;
    }
    cs.get(k).calculate(&o, &s);
    double X = v_real("X"), Y = v_real("Y"), W = v_real("W"), VX = v_real("VX"), VY = v_real("VY");
    for (int r = 0; r < rowsOf(k); ++r) {
        double l = v_realn("lambda", r);
        double F[6];
        for (int c = 0; c < 6; ++c) F[c] = o.J[r][c] * l;
        v_eq(F[0] + F[3], 0, "force-balance");
        v_eq(F[1] + F[4], 0, "force-balance");
        if (k == CLUTCH) v_eq(F[2] + F[5], 0, "torque-balance");
        if (k == GEAR) { v_eq(F[5], -v_real("pa") * F[2], "torque-balance"); v_eq(F[2], l, "torque-balance"); continue; }
        if (satisfied) {
            double M = F[2] + F[5] + (s.p_x[a] - X) * F[1] - (s.p_y[a] - Y) * F[0] + (s.p_x[b] - X) * F[4] - (s.p_y[b] - Y) * F[3];
            v_eq(M, 0, "moment-balance");
            // a motion of both bodies as one
            double P = 0;
            for (int e = 0; e < 2; ++e) {
                int i = e ? b : a;
                P += F[3 * e] * (VX - W * (s.p_y[i] - Y)) + F[3 * e + 1] * (VY + W * (s.p_x[i] - X)) + F[3 * e + 2] * W;
            }
            v_eq(P, 0, "rigid");
        }
    }
    v_reach("rigid"); v_reach("moment-balance");
    s.destroy();
}
extern "C" {
void c19_link() { check<Snap>(LINK, v_choice("sat", 0, 1)); }
void c19_roll() { check<Snap>(ROLL, v_choice("sat", 0, 1)); }
void c19_far() { check<SnapBig>(v_choice("kind", LINK, GEAR), 1, FAR_N); }
void c19_rotation() { check<Snap>(v_choice("kind", CLUTCH, GEAR), 1); }
}
