// C17 rotation constraints
#include "con.h"
//@ bound the four rotation constraints, states of 3 bodies, every pair of distinct slots; any of ten pairs of slots among 300 bodies; every state value and parameter an arbitrary real (limits arbitrary extended reals)
//@ entry c17_rotation need=row-velocity,linear,residual,bias,limits,gains
//@ entry c17_far need=row-velocity,linear,residual,bias,limits,gains
//@ entry c17_limits need=limits
//@ entry c17_settings need=limits
template <class Q> static void rotation(int n) {
    int k = v_choice("kind", CLUTCH, CONSTROT);
    Cons cs; RigidBody rb[2]; SystemState s; Q q; Constraint::Output o;
    cs.params(k);
    cs.bodies(k, &rb[0], &rb[1]);
    slots(rb, bodiesOf(k), n);
    symState(s, q, "s", n, 2);
    cs.get(k).calculate(&o, &s);
    double v = 0, lin = 0;
    for (int b = 0; b < bodiesOf(k); ++b) {
        int i = rb[b].index;
        v += o.J[0][3 * b] * s.v_x[i] + o.J[0][3 * b + 1] * s.v_y[i] + o.J[0][3 * b + 2] * s.v_theta[i];
        lin += o.J[0][3 * b] * s.v_x[i] + o.J[0][3 * b + 1] * s.v_y[i];
    }
    double w0 = s.v_theta[rb[0].index], w1 = bodiesOf(k) == 2 ? s.v_theta[rb[1].index] : 0;
    v_eq(v, k == CLUTCH ? w1 - w0 : k == GEAR ? w0 - v_real("pa") * w1 : w0, "row-velocity");
    v_eq(lin, 0, "linear");
    v_eq(o.C[0], 0, "residual");
    v_eq(o.v_bias[0], k == CONSTROT ? v_real("pa") : 0, "bias");
    if (k == GEAR) {
        v_eq(o.limits[0][0], cs.ge.m_neutral ? 0 : -DBL_MAX, "limits");
        v_eq(o.limits[0][1], cs.ge.m_neutral ? 0 : DBL_MAX, "limits");
    } else {
        v_eq(o.limits[0][0], v_real("lo"), "limits");
        v_eq(o.limits[0][1], v_real("hi"), "limits");
    }
    v_eq(o.ks[0], v_real("ks"), "gains");
    v_eq(o.kd[0], v_real("kd"), "gains");
    v_assert(cs.get(k).getConstraintCount() == 1 && cs.get(k).m_bodyCount == bodiesOf(k), "shape");
    s.destroy();
}
extern "C" {
void c17_rotation() { rotation<Snap>(3); }
void c17_far() { rotation<SnapBig>(FAR_N); }
void c17_limits() {
    int k = v_choice("kind", 0, 2);
    double lo = v_ext("lo"), hi = v_ext("hi");
    SystemState s; Snap q; Constraint::Output o; RigidBody a, b;
    symState(s, q, "s", 2, 0);
    a.index = 1; b.index = 0;
    if (k == 0) { ClutchConstraint c; c.setBody1(&a); c.setBody2(&b); c.m_minTorque = lo; c.m_maxTorque = hi; c.calculate(&o, &s); }
    if (k == 1) { RotationFrictionConstraint c; c.setBody(&a); c.m_minTorque = lo; c.m_maxTorque = hi; c.calculate(&o, &s); }
    if (k == 2) { ConstantRotationConstraint c; c.setBody(&a); c.m_minTorque = lo; c.m_maxTorque = hi; c.calculate(&o, &s); }
    v_eq(o.limits[0][0], lo, "limits"); v_eq(o.limits[0][1], hi, "limits");
    s.destroy();
}
// switching the gear in and out of neutral, unlimited torques as constructed
void c17_settings() {
    SystemState s; Snap q; Constraint::Output o; RigidBody a, b;
    symState(s, q, "s", 2, 0);
    a.index = 0; b.index = 1;
    SimpleGearConstraint g; g.setBody1(&a); g.setBody2(&b);
    for (int i = 0; i < 3; ++i) {
        g.m_neutral = v_choice("neutral", 0, 1);
        g.m_ratio = v_realn("ratio", i);
        g.calculate(&o, &s);
        v_eq(o.limits[0][0], g.m_neutral ? 0 : -DBL_MAX, "limits");
        v_eq(o.limits[0][1], g.m_neutral ? 0 : DBL_MAX, "limits");
        v_eq(o.J[0][2] * s.v_theta[0] + o.J[0][5] * s.v_theta[1], s.v_theta[0] - g.m_ratio * s.v_theta[1], "row-velocity");
    }
    ClutchConstraint c; c.setBody1(&a); c.setBody2(&b); c.calculate(&o, &s);
    v_eq(o.limits[0][0], -DBL_MAX, "limits"); v_eq(o.limits[0][1], DBL_MAX, "limits");
    RotationFrictionConstraint f; f.setBody(&a); f.calculate(&o, &s);
    v_eq(o.limits[0][0], -DBL_MAX, "limits"); v_eq(o.limits[0][1], DBL_MAX, "limits");
    ConstantRotationConstraint r; r.setBody(&a); r.calculate(&o, &s);
    v_eq(o.limits[0][0], -DBL_MAX, "limits"); v_eq(o.limits[0][1], DBL_MAX, "limits"); v_eq(o.v_bias[0], 0, "bias");
    s.destroy();
}
}
