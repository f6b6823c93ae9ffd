// C09 single-stage integrators
#include "st.h"
//@ bound 0..3 bodies, 0..2 reaction rows, 40 bodies with 70 rows, up to 300 bodies with 200 rows, 40000 and 66000 bodies, one or two consecutive steps with different dt; every state value, acceleration and dt an arbitrary real
//@ entry c09_euler need=position,velocity,untouched
//@ entry c09_nsv need=position,velocity,untouched
//@ entry c09_large need=velocity,position,untouched
//@ entry c09_huge need=velocity,position
//@ entry c09_two need=position,velocity
static const int POSES = 1 << TH | 1 << P_X | 1 << P_Y | 1 << V_T | 1 << V_X | 1 << V_Y;
template <class Q> static void expect(SystemState &s, Q &q, double dt, bool nsv) {
    static const int P[3] = {P_X, P_Y, TH}, V[3] = {V_X, V_Y, V_T}, A[3] = {A_X, A_Y, A_T};
    for (int i = 0; i < q.n; ++i)
        for (int k = 0; k < 3; ++k) {
            double v1 = q.b[V[k]][i] + q.b[A[k]][i] * dt;
            double p1 = q.b[P[k]][i] + (nsv ? v1 : q.b[V[k]][i]) * dt;
            v_eq(bodyArr(s, V[k])[i], v1, "velocity");
            v_eq(bodyArr(s, P[k])[i], p1, "position");
        }
    sameState(s, q, "untouched", POSES);
}
template <class Q> static void one(OdeSolver &o, bool nsv, int n, int nc) {
    SystemState s; Q q;
    symState(s, q, "s", n, nc);
    double dt = v_real("dt");
    o.start(&s, dt);
    sameState(s, q, "start-untouched");
    bool done = o.step(&s);
    v_assert(done, "one-stage");
    sameState(s, q, "step-untouched");
    v_eq(s.dt, dt, "stage-dt");
    o.solve(&s);
    expect(s, q, dt, nsv);
    Q e; take(s, e, q.n, q.nc);
    o.end();
    sameState(s, e, "end-untouched");
    v_assert(s.n == q.n && s.n_c == q.nc, "counts");
    s.destroy();
}
extern "C" {
void c09_euler() { EulerOdeSolver o; one<Snap>(o, false, v_choice("n", 0, 3), v_choice("nc", 0, 2)); }
void c09_nsv() { NsvOdeSolver o; one<Snap>(o, true, v_choice("n", 0, 3), v_choice("nc", 0, 2)); }
void c09_large() {
    EulerOdeSolver e; NsvOdeSolver v;
    bool nsv = v_choice("kind", 0, 1);
    static const int N[3] = {39, 40, 300}, NC[3] = {70, 71, 200};
    int z = v_choice("size", 0, 2);
    one<SnapBig>(nsv ? (OdeSolver &)v : (OdeSolver &)e, nsv, N[z], NC[z]);
}
// tens of thousands of bodies: most of them at rest at the origin, every 97th and the last ones anywhere
void c09_huge() {
    static const int P[3] = {P_X, P_Y, TH}, V[3] = {V_X, V_Y, V_T}, A[3] = {A_X, A_Y, A_T};
    EulerOdeSolver e; NsvOdeSolver v;
    bool nsv = v_choice("kind", 0, 1);
    OdeSolver &o = nsv ? (OdeSolver &)v : (OdeSolver &)e;
    const int n = v_choice("big", 0, 1) ? 66000 : 40000;
    SystemState s;
    s.resize(n, 1);
    for (int k = 0; k < 3; ++k) for (int i = 0; i < n; ++i) {
        bool w = i % 97 == 0 || i >= n - 3;
        bodyArr(s, P[k])[i] = w ? v_realn(nameOf("s", P[k]), i) : 0; bodyArr(s, V[k])[i] = w ? v_realn(nameOf("s", V[k]), i) : 0; bodyArr(s, A[k])[i] = w ? v_realn(nameOf("s", A[k]), i) : 0;
    }
    double dt = v_real("dt");
    o.start(&s, dt);
    v_assert(o.step(&s), "one-stage");
    o.solve(&s);
    o.end();
    for (int k = 0; k < 3; ++k) for (int i = 0; i < n; ++i) {
        bool w = i % 97 == 0 || i >= n - 3;
        double p = w ? v_realn(nameOf("s", P[k]), i) : 0, u = w ? v_realn(nameOf("s", V[k]), i) : 0, a = w ? v_realn(nameOf("s", A[k]), i) : 0;
        v_eq(bodyArr(s, V[k])[i], u + a * dt, "velocity");
        v_eq(bodyArr(s, P[k])[i], p + (nsv ? u + a * dt : u) * dt, "position");
    }
    s.destroy();
}
// a second step (other size, other dt, and after an abandoned one) starts afresh
void c09_two() {
    bool nsv = v_choice("kind", 0, 1);
    EulerOdeSolver e; NsvOdeSolver v;
    OdeSolver &o = nsv ? (OdeSolver &)v : (OdeSolver &)e;
    SystemState s; Snap q;
    symState(s, q, "s", v_choice("n0", 0, 2), 1);
    double d0 = v_real("d0"), d1 = v_real("d1");
    int stop = v_choice("stop", 0, 3);
    o.start(&s, d0);
    if (stop > 0) o.step(&s);
    if (stop > 1) o.solve(&s);
    if (stop > 2) o.end();
    s.destroy();
    symState(s, q, "u", v_choice("n1", 0, 2), v_choice("nc1", 0, 1));
    o.start(&s, d1);
    v_assert(o.step(&s), "one-stage");
    o.solve(&s);
    expect(s, q, d1, nsv);
    o.end();
    s.destroy();
}
}
