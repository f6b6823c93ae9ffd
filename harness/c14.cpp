// C14 Jacobians are gradients
#include "con.h"
//@ bound the five position constraints, system states of 3 bodies, every pair of distinct slots; any of ten pairs of slots among 300 bodies; every pose and parameter an arbitrary real; the partial derivatives are taken symbolically on the executed residual
//@ entry c14_fixpos need=gradient
//@ entry c14_fixrot need=gradient
//@ entry c14_line need=gradient
//@ entry c14_link need=gradient
//@ entry c14_roll need=gradient
//@ entry c14_far need=gradient
//@ entry c14_moved need=gradient
static void grad(Constraint &c, int k, SystemState &s, RigidBody *rb, const char *tag) {
    Constraint::Output o;
    c.calculate(&o, &s);
    v_assert(c.getConstraintCount() == rowsOf(k), "rows");
    v_assert(c.m_bodyCount == bodiesOf(k), "body-count");
    static const int Q[3] = {P_X, P_Y, TH};
    for (int r = 0; r < rowsOf(k); ++r)
        for (int b = 0; b < bodiesOf(k); ++b) {
            v_assert(c.m_bodies[b] == &rb[b], "attached");
            for (int q = 0; q < 3; ++q) {
                char nm[32];
                const char *t = nameOf(tag, Q[q]);
                int i = 0;
                while (t[i]) { nm[i] = t[i]; ++i; }
                nm[i++] = '_'; int v = rb[b].index;
                for (int p = 100; p; p /= 10) if (v >= p || p == 1) nm[i++] = (char)('0' + v / p % 10);
                nm[i] = 0;
                v_eq(o.J[r][3 * b + q], v_deriv(o.C[r], nm), "gradient");
            }
        }
}
template <class Q> static void run(int k, int n) {
    Cons cs; RigidBody rb[2]; SystemState s; Q q;
    cs.params(k);
    cs.bodies(k, &rb[0], &rb[1]);
    slots(rb, bodiesOf(k), n);
    symState(s, q, "s", n, 2);
    grad(cs.get(k), k, s, rb, "s");
    s.destroy();
}
extern "C" {
void c14_fixpos() { run<Snap>(FIXPOS, 3); }
void c14_fixrot() { run<Snap>(FIXROT, 3); }
void c14_line() { run<Snap>(LINE, 3); }
void c14_link() { run<Snap>(LINK, 3); }
void c14_roll() { run<Snap>(ROLL, 3); }
void c14_far() { run<SnapBig>(v_choice("kind", 0, ROLL), FAR_N); }
// the same constraint object later, in another state and attached elsewhere
void c14_moved() {
    int k = v_choice("kind", 0, ROLL);
    Cons cs; RigidBody rb[2], other[2]; SystemState s, t; Snap q;
    symState(s, q, "s", 2, 0); symState(t, q, "t", 3, 0);
    cs.params(k);
    cs.bodies(k, &other[0], &other[1]);
    other[0].index = 1; other[1].index = 0;
    Constraint::Output o;
    cs.get(k).calculate(&o, &s);
    cs.bodies(k, &rb[0], &rb[1]);
    rb[0].index = 2; rb[1].index = 0;
    grad(cs.get(k), k, t, rb, "t");
    s.destroy(); t.destroy();
}
}
