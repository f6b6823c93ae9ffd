// C20 gravity and static forces
#include "st.h"
//@ bound states of 0..4 bodies (and of 40 and 300), every body index, every pose, mass, force and configuration an arbitrary real; several generators and repeated application
//@ entry c20_gravity need=weight,untouched
//@ entry c20_static need=force,moment,untouched
//@ entry c20_large need=weight,force,untouched
//@ entry c20_both need=sum
static const int FORCES = 1 << F_X | 1 << F_Y | 1 << TQ;
extern "C" {
void c20_gravity() {
    SystemState s; Snap q;
    int n = v_choice("n", 0, 4);
    symState(s, q, "s", n, v_choice("nc", 0, 1));
    GravityForceGenerator g;
    double G = 9.81;
    if (v_choice("set", 0, 1)) { G = v_real("g"); g.m_g = G; }
    g.apply(&s);
    v_reach("weight"); v_reach("untouched");
    for (int i = 0; i < n; ++i) {
        v_eq(s.f_y[i], q.b[F_Y][i] - q.b[MS][i] * G, "weight");
        v_eq(s.f_x[i], q.b[F_X][i], "untouched");
        v_eq(s.t[i], q.b[TQ][i], "untouched");
    }
    sameState(s, q, "untouched", FORCES);
    v_assert(s.n == n && s.n_c == q.nc, "untouched");
    v_eq(g.m_g, G, "untouched");
    s.destroy();
}
void c20_static() {
    SystemState s; Snap q; RigidBody b;
    int n = v_choice("n", 1, 4), i = v_choice("i", 0, n - 1);
    symState(s, q, "s", n, 1);
    b.index = i;
    b.p_x = v_real("bx"); b.p_y = v_real("by"); b.theta = v_real("bt"); // the state counts, not the body
    StaticForceGenerator f;
    f.m_body = &b;
    bool conf = v_choice("conf", 0, 1);
    double fx = 0, fy = 0, x = 0, y = 0;
    if (conf) { fx = v_real("fx"); fy = v_real("fy"); x = v_real("x"); y = v_real("y"); f.setForce(fx, fy); f.setPosition(x, y); }
    f.apply(&s);
    double c = std::cos(q.b[TH][i]), d = std::sin(q.b[TH][i]);
    v_eq(s.f_x[i], q.b[F_X][i] + fx, "force");
    v_eq(s.f_y[i], q.b[F_Y][i] + fy, "force");
    v_eq(s.t[i], q.b[TQ][i] + (c * x - d * y) * fy - (d * x + c * y) * fx, "moment");
    for (int k = 0; k < n; ++k) if (k != i) { v_eq(s.f_x[k], q.b[F_X][k], "untouched"); v_eq(s.f_y[k], q.b[F_Y][k], "untouched"); v_eq(s.t[k], q.b[TQ][k], "untouched"); }
    sameState(s, q, "untouched", FORCES);
    v_eq(b.p_x, v_real("bx"), "untouched"); v_eq(b.p_y, v_real("by"), "untouched"); v_eq(b.theta, v_real("bt"), "untouched"); v_assert(b.index == i, "untouched");
    s.destroy();
}
void c20_large() {
    SystemState s; static SnapT<304, 8> q;
    const int N = v_choice("n", 0, 1) ? 300 : 40;
    symState(s, q, "s", N, 3);
    GravityForceGenerator g; StaticForceGenerator f; RigidBody b;
    g.m_g = v_real("g");
    f.m_body = &b; b.index = v_choice("i", N - 3, N - 1);
    f.setForce(v_real("fx"), v_real("fy")); f.setPosition(v_real("x"), v_real("y"));
    g.apply(&s); f.apply(&s);
    for (int i = 0; i < N; ++i) {
        bool on = i == b.index;
        double c = std::cos(q.b[TH][i]), d = std::sin(q.b[TH][i]);
        v_eq(s.f_y[i], q.b[F_Y][i] - q.b[MS][i] * g.m_g + (on ? f.m_f_y : 0), "weight");
        v_eq(s.f_x[i], q.b[F_X][i] + (on ? f.m_f_x : 0), "force");
        v_eq(s.t[i], q.b[TQ][i] + (on ? (c * f.m_p_x - d * f.m_p_y) * f.m_f_y - (d * f.m_p_x + c * f.m_p_y) * f.m_f_x : 0), "force");
    }
    sameState(s, q, "untouched", FORCES);
    s.destroy();
}
void c20_both() {
    SystemState s; Snap q; RigidBody b[2];
    symState(s, q, "s", 2, 0);
    GravityForceGenerator g; StaticForceGenerator f[2];
    double F[3][2] = {};
    for (int k = 0; k < 2; ++k) { b[k].index = v_choice("slot", 0, 1); f[k].m_body = &b[k]; }
    for (int r = 0; r < 2; ++r) {
        for (int k = 0; k < 2; ++k) {
            double fx = v_realn("fx", 2 * r + k), fy = v_realn("fy", 2 * r + k), x = v_realn("x", 2 * r + k), y = v_realn("y", 2 * r + k);
            f[k].setForce(fx, fy); f[k].setPosition(x, y);
            f[k].apply(&s);
            int i = b[k].index;
            double c = std::cos(q.b[TH][i]), d = std::sin(q.b[TH][i]);
            F[0][i] += fx; F[1][i] += fy; F[2][i] += (c * x - d * y) * fy - (d * x + c * y) * fx;
        }
        g.apply(&s);
        for (int i = 0; i < 2; ++i) F[1][i] -= q.b[MS][i] * 9.81;
    }
    for (int i = 0; i < 2; ++i) {
        v_eq(s.f_x[i], q.b[F_X][i] + F[0][i], "sum"); v_eq(s.f_y[i], q.b[F_Y][i] + F[1][i], "sum"); v_eq(s.t[i], q.b[TQ][i] + F[2][i], "sum");
    }
    s.destroy();
}
}
