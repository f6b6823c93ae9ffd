// C15 Jacobian rates are time derivatives
#include "con.h"
//@ bound all nine constraint types, system states of 3 bodies, every pair of distinct slots; any of ten pairs of slots among 300 bodies; every pose, velocity and parameter an arbitrary real; the time derivative is taken symbolically on the executed Jacobian
//@ entry c15_fixpos need=rate
//@ entry c15_fixrot need=rate
//@ entry c15_line need=rate
//@ entry c15_link need=rate
//@ entry c15_roll need=rate
//@ entry c15_rotation need=rate
//@ entry c15_far need=rate
template <class Q> static void run(int k, int n) {
    Cons cs; RigidBody rb[2]; SystemState s; Q q;
    cs.params(k);
    cs.bodies(k, &rb[0], &rb[1]);
    slots(rb, bodiesOf(k), n);
    symState(s, q, "s", n, 2);
    double tau = v_real("tau");
    for (int i = 0; i < n; ++i) { s.p_x[i] += s.v_x[i] * tau; s.p_y[i] += s.v_y[i] * tau; s.theta[i] += s.v_theta[i] * tau; }
    Constraint::Output o;
    cs.get(k).calculate(&o, &s);
    for (int r = 0; r < rowsOf(k); ++r)
        for (int c = 0; c < 3 * bodiesOf(k); ++c) v_eq(o.J_dot[r][c], v_deriv(o.J[r][c], "tau"), "rate");
    s.destroy();
}
extern "C" {
void c15_fixpos() { run<Snap>(FIXPOS, 3); }
void c15_fixrot() { run<Snap>(FIXROT, 3); }
void c15_line() { run<Snap>(LINE, 3); }
void c15_link() { run<Snap>(LINK, 3); }
void c15_roll() { run<Snap>(ROLL, 3); }
void c15_rotation() { run<Snap>(v_choice("kind", CLUTCH, CONSTROT), 3); }
void c15_far() { run<SnapBig>(v_choice("kind", 0, N_CON - 1), FAR_N); }
}
