// C13 point velocities and applied forces
#include "st.h"
//@ bound system states of 1..3 bodies, every body index, one to three applied forces on the same or different bodies; every pose, velocity, point and force an arbitrary real; the time derivative is taken symbolically; states of 17, 65, 129, 257 and 300 bodies (200 rows), a body of each part of the range, and of 40000 and 66000 bodies
//@ entry c13_velocity need=derivative,pure
//@ entry c13_duality need=power,force,others
//@ entry c13_accumulate need=sum
//@ entry c13_hundreds need=velocity,power,force,others
//@ entry c13_huge need=velocity,power,others
extern "C" {
void c13_velocity() {
    SystemState s; Snap q;
    int n = v_choice("n", 1, 3);
    symState(s, q, "s", n, 1);
    int i = v_choice("i", 0, n - 1);
    // pose along the motion
    double tau = v_real("tau");
    s.p_x[i] = q.b[P_X][i] += q.b[V_X][i] * tau;
    s.p_y[i] = q.b[P_Y][i] += q.b[V_Y][i] * tau;
    s.theta[i] = q.b[TH][i] += q.b[V_T][i] * tau;
    double x = v_real("x"), y = v_real("y"), wx, wy, vx, vy;
    s.localToWorld(x, y, &wx, &wy, i);
    s.velocityAtPoint(x, y, &vx, &vy, i);
    v_eq(vx, v_deriv(wx, "tau"), "derivative");
    v_eq(vy, v_deriv(wy, "tau"), "derivative");
    double c = std::cos(s.theta[i]), d = std::sin(s.theta[i]);
    v_eq(vx, q.b[V_X][i] - q.b[V_T][i] * (d * x + c * y), "velocity");
    v_eq(vy, q.b[V_Y][i] + q.b[V_T][i] * (c * x - d * y), "velocity");
    sameState(s, q, "pure");
    s.destroy();
}
void c13_duality() {
    SystemState s; Snap q;
    int n = v_choice("n", 1, 3);
    symState(s, q, "s", n, 1);
    int i = v_choice("i", 0, n - 1);
    double x = v_real("x"), y = v_real("y"), fx = v_real("fx"), fy = v_real("fy"), vx, vy;
    s.velocityAtPoint(x, y, &vx, &vy, i);
    s.applyForce(x, y, fx, fy, i);
    double dx = s.f_x[i] - q.b[F_X][i], dy = s.f_y[i] - q.b[F_Y][i], dt = s.t[i] - q.b[TQ][i];
    v_eq(dx, fx, "force"); v_eq(dy, fy, "force");
    v_eq(fx * vx + fy * vy, dx * q.b[V_X][i] + dy * q.b[V_Y][i] + dt * q.b[V_T][i], "power");
    double c = std::cos(q.b[TH][i]), d = std::sin(q.b[TH][i]);
    v_eq(dt, (c * x - d * y) * fy - (d * x + c * y) * fx, "force");
    for (int k = 0; k < n; ++k)
        if (k != i) { v_eq(s.f_x[k], q.b[F_X][k], "others"); v_eq(s.f_y[k], q.b[F_Y][k], "others"); v_eq(s.t[k], q.b[TQ][k], "others"); }
    v_reach("others");
    sameState(s, q, "others", 1 << F_X | 1 << F_Y | 1 << TQ);
    s.destroy();
}
void c13_accumulate() {
    SystemState s; Snap q;
    symState(s, q, "s", 2, 0);
    double F[3][2] = {}, c[2], d[2];
    for (int i = 0; i < 2; ++i) { c[i] = std::cos(q.b[TH][i]); d[i] = std::sin(q.b[TH][i]); }
    int k = v_choice("calls", 1, 3);
    for (int a = 0; a < k; ++a) {
        int i = v_choice("i", 0, 1);
        double x = v_realn("x", a), y = v_realn("y", a), fx = v_realn("fx", a), fy = v_realn("fy", a);
        s.applyForce(x, y, fx, fy, i);
        F[0][i] += fx; F[1][i] += fy; F[2][i] += (c[i] * x - d[i] * y) * fy - (d[i] * x + c[i] * y) * fx;
    }
    for (int i = 0; i < 2; ++i) {
        v_eq(s.f_x[i], q.b[F_X][i] + F[0][i], "sum");
        v_eq(s.f_y[i], q.b[F_Y][i] + F[1][i], "sum");
        v_eq(s.t[i], q.b[TQ][i] + F[2][i], "sum");
    }
    s.destroy();
}
// states of hundreds of bodies with as many constraints as fit, bodies of every part of the index range
void c13_hundreds() {
    SystemState s; SnapBig q;
    static const int SZ[5] = { 17, 65, 129, 257, 300 };
    int k = v_choice("size", 0, 4), n = SZ[k];
    symState(s, q, "s", n, k ? 200 : 0);
    int z = v_choice("part", 0, 6), i = z == 0 ? 0 : z == 1 ? n / 7 : z == 2 ? n / 3 : z == 3 ? n / 2 : z == 4 ? n * 5 / 6 : z == 5 ? n - 2 : n - 1;
    double x = v_real("x"), y = v_real("y"), fx = v_real("fx"), fy = v_real("fy"), vx, vy;
    double c = std::cos(q.b[TH][i]), d = std::sin(q.b[TH][i]);
    s.velocityAtPoint(x, y, &vx, &vy, i);
    v_eq(vx, q.b[V_X][i] - q.b[V_T][i] * (d * x + c * y), "velocity");
    v_eq(vy, q.b[V_Y][i] + q.b[V_T][i] * (c * x - d * y), "velocity");
    s.applyForce(x, y, fx, fy, i);
    double dx = s.f_x[i] - q.b[F_X][i], dy = s.f_y[i] - q.b[F_Y][i], dt = s.t[i] - q.b[TQ][i];
    v_eq(dx, fx, "force"); v_eq(dy, fy, "force");
    v_eq(fx * vx + fy * vy, dx * q.b[V_X][i] + dy * q.b[V_Y][i] + dt * q.b[V_T][i], "power");
    q.b[F_X][i] = s.f_x[i]; q.b[F_Y][i] = s.f_y[i]; q.b[TQ][i] = s.t[i];
    sameState(s, q, "others");
    s.destroy();
}
// tens of thousands of bodies: the touched body and a sample of the others
void c13_huge() {
    SystemState s;
    int n = v_choice("n", 0, 1) ? 66000 : 40000;
    s.resize(n, 1);
    const int at[7] = { 0, 255, 32766, 32768, 39999, n - 2, n - 1 };
    for (int j = 0; j < 7; ++j) {
        s.p_x[at[j]] = v_realn("px", at[j]); s.p_y[at[j]] = v_realn("py", at[j]); s.theta[at[j]] = v_realn("th", at[j]); s.v_x[at[j]] = v_realn("vx", at[j]); s.v_y[at[j]] = v_realn("vy", at[j]); s.v_theta[at[j]] = v_realn("w", at[j]);
        s.f_x[at[j]] = v_realn("fx0", at[j]); s.f_y[at[j]] = v_realn("fy0", at[j]); s.t[at[j]] = v_realn("t0", at[j]);
    }
    int i = at[v_choice("which", 0, 6)];
    double x = v_real("x"), y = v_real("y"), fx = v_real("fx"), fy = v_real("fy"), vx, vy;
    double c = std::cos(v_realn("th", i)), d = std::sin(v_realn("th", i));
    s.velocityAtPoint(x, y, &vx, &vy, i);
    v_eq(vx, v_realn("vx", i) - v_realn("w", i) * (d * x + c * y), "velocity");
    v_eq(vy, v_realn("vy", i) + v_realn("w", i) * (c * x - d * y), "velocity");
    s.applyForce(x, y, fx, fy, i);
    v_eq(fx * vx + fy * vy, (s.f_x[i] - v_realn("fx0", i)) * v_realn("vx", i) + (s.f_y[i] - v_realn("fy0", i)) * v_realn("vy", i) + (s.t[i] - v_realn("t0", i)) * v_realn("w", i), "power");
    for (int j = 0; j < 7; ++j) if (at[j] != i) {
        v_eq(s.f_x[at[j]], v_realn("fx0", at[j]), "others"); v_eq(s.f_y[at[j]], v_realn("fy0", at[j]), "others"); v_eq(s.t[at[j]], v_realn("t0", at[j]), "others");
    }
    s.destroy();
}
}
