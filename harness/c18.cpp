// C18 evaluation is complete, pure and repeatable
#include "con.h"
//@ bound all nine constraint types, states of 3 bodies, every pair of distinct slots; any of ten pairs of slots among 300 bodies; every state value and parameter an arbitrary real; the output buffer starts uninitialised or holds another constraint's output
//@ entry c18_complete need=repeatable,pure
//@ entry c18_far need=repeatable,pure
//@ entry c18_stale need=repeatable
//@ entry c18_limits need=limits
//@ entry c18_new need=new
static void cmp(Constraint::Output &a, Constraint::Output &b, int k, const char *id) {
    for (int r = 0; r < rowsOf(k); ++r) {
        v_eq(a.C[r], b.C[r], id); v_eq(a.v_bias[r], b.v_bias[r], id);
        v_eq(a.limits[r][0], b.limits[r][0], id); v_eq(a.limits[r][1], b.limits[r][1], id);
        v_eq(a.ks[r], b.ks[r], id); v_eq(a.kd[r], b.kd[r], id);
        for (int c = 0; c < 3 * bodiesOf(k); ++c) { v_eq(a.J[r][c], b.J[r][c], id); v_eq(a.J_dot[r][c], b.J_dot[r][c], id); }
    }
}
static void symBody(RigidBody &b, int i) {
    b.p_x = v_realn("bpx", i); b.p_y = v_realn("bpy", i); b.theta = v_realn("bth", i); b.v_x = v_realn("bvx", i); b.v_y = v_realn("bvy", i);
    b.v_theta = v_realn("bw", i); b.m = v_realn("bm", i); b.I = v_realn("bI", i);
}
static void pureBody(RigidBody &b, int i) {
    v_eq(b.p_x, v_realn("bpx", i), "pure"); v_eq(b.p_y, v_realn("bpy", i), "pure"); v_eq(b.theta, v_realn("bth", i), "pure"); v_eq(b.v_x, v_realn("bvx", i), "pure");
    v_eq(b.v_y, v_realn("bvy", i), "pure"); v_eq(b.v_theta, v_realn("bw", i), "pure"); v_eq(b.m, v_realn("bm", i), "pure"); v_eq(b.I, v_realn("bI", i), "pure");
}
template <class Q> static void complete(int n) {
    int k = v_choice("kind", 0, N_CON - 1);
    Cons cs; RigidBody rb[2]; SystemState s; Q q; Constraint::Output o1, o2;
    v_poison(&o1, sizeof o1); v_poison(&o2, sizeof o2);
    cs.params(k);
    cs.bodies(k, &rb[0], &rb[1]);
    symBody(rb[0], 0); symBody(rb[1], 1);
    slots(rb, bodiesOf(k), n);
    int i0 = rb[0].index, i1 = rb[1].index;
    symState(s, q, "s", n, 2);
    Constraint &c = cs.get(k);
    for (int r = 0; r < 3; ++r) for (int b = 0; b < 2; ++b) { c.F_x[r][b] = v_realn("Fx", r * 2 + b); c.F_y[r][b] = v_realn("Fy", r * 2 + b); c.F_t[r][b] = v_realn("Ft", r * 2 + b); }
    c.calculate(&o1, &s);
    c.calculate(&o2, &s);
    cmp(o1, o2, k, "repeatable");
    sameState(s, q, "pure");
    v_assert(s.n == n && s.n_c == 2, "pure");
    pureBody(rb[0], 0); pureBody(rb[1], 1);
    v_assert(rb[0].index == i0 && rb[1].index == i1, "pure");
    v_assert(c.m_bodies[0] == &rb[0] && (bodiesOf(k) == 1 || c.m_bodies[1] == &rb[1]) && c.m_bodyCount == bodiesOf(k) && c.getConstraintCount() == rowsOf(k) && c.m_index == -1, "pure");
    for (int r = 0; r < 3; ++r) for (int b = 0; b < 2; ++b) { v_eq(c.F_x[r][b], v_realn("Fx", r * 2 + b), "pure"); v_eq(c.F_y[r][b], v_realn("Fy", r * 2 + b), "pure"); v_eq(c.F_t[r][b], v_realn("Ft", r * 2 + b), "pure"); }
    s.destroy();
}
extern "C" {
void c18_complete() { complete<Snap>(3); }
void c18_far() { complete<SnapBig>(FAR_N); }
// another constraint evaluated into the same buffer, and this one in another state, in between
void c18_stale() {
    int k = v_choice("kind", 0, N_CON - 1), other = v_choice("other", 0, N_CON - 1);
    Cons cs, ot; RigidBody rb[2], ob[2]; SystemState s, t; Snap q;
    Constraint::Output o1, o2;
    v_poison(&o1, sizeof o1); v_poison(&o2, sizeof o2);
    cs.params(k); cs.bodies(k, &rb[0], &rb[1]); rb[0].index = 1; rb[1].index = 2;
    ot.bodies(other, &ob[0], &ob[1]); ob[0].index = 0; ob[1].index = 1;
    symState(s, q, "s", 3, 2); symState(t, q, "t", 3, 2);
    cs.get(k).calculate(&o1, &s);
    ot.get(other).calculate(&o2, &t);
    cs.get(k).calculate(&o2, &t);
    cs.get(k).calculate(&o2, &s);
    cmp(o1, o2, k, "repeatable");
    s.destroy(); t.destroy();
}
void c18_limits() {
    int k = v_choice("kind", 0, N_CON - 1);
    Cons cs; RigidBody rb[2]; SystemState s; Snap q; Constraint::Output o;
    bool set = v_choice("set", 0, 1);
    if (set) cs.params(k);
    cs.bodies(k, &rb[0], &rb[1]); rb[0].index = 1; rb[1].index = 0;
    symState(s, q, "s", 2, 2);
    cs.get(k).calculate(&o, &s);
    for (int r = 0; r < rowsOf(k); ++r) {
        double lo = -DBL_MAX, hi = DBL_MAX;
        if (set && k == LINK) { lo = -v_real("hi"); hi = v_real("hi"); }
        if (set && (k == CLUTCH || k == FRICTION || k == CONSTROT)) { lo = v_real("lo"); hi = v_real("hi"); }
        if (set && k == GEAR && cs.ge.m_neutral) lo = hi = 0;
        v_eq(o.limits[r][0], lo, "limits"); v_eq(o.limits[r][1], hi, "limits");
    }
    s.destroy();
}
void c18_new() {
    int k = v_choice("kind", 0, N_CON - 1);
    Cons cs;
    Constraint &c = cs.get(k);
    v_assert(c.m_bodies[0] == nullptr, "new");
    v_assert(c.m_bodies[1] == nullptr, "new");
    v_assert(c.m_index == -1, "new");
    v_assert(c.m_bodyCount == bodiesOf(k) && c.getConstraintCount() == rowsOf(k), "new");
    for (int r = 0; r < 3; ++r) for (int b = 0; b < 2; ++b) { v_eq(c.F_x[r][b], 0, "new"); v_eq(c.F_y[r][b], 0, "new"); v_eq(c.F_t[r][b], 0, "new"); }
}
}
