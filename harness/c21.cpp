// C21 springs
#include "con.h"
//@ bound states of 3 bodies, every pair of slots; any of ten pairs of slots among 300 bodies, either or both ends on bodies outside the system, missing bodies; every pose, velocity, anchor, stiffness, damping and rest length an arbitrary real; gradients taken symbolically on the executed energy
//@ entry c21_pair need=balance,line,others
//@ entry c21_gradient need=gradient
//@ entry c21_damping need=dissipates,damping
//@ entry c21_close need=dropped
//@ entry c21_threshold need=elastic
//@ entry c21_static need=static-end,others
//@ entry c21_missing need=nothing
//@ entry c21_energy need=energy,ends
static const int FORCES = 1 << F_X | 1 << F_Y | 1 << TQ;
struct Sp {
    Spring sp; RigidBody rb[2]; SystemState s; SnapBig q;
    double ax[2], ay[2], vx[2], vy[2];  // anchors
    void conf(bool withKd) {
        sp.m_body1 = &rb[0]; sp.m_body2 = &rb[1];
        sp.m_ks = v_real("ks"); sp.m_kd = withKd ? v_real("kd") : 0; sp.m_restLength = v_real("rest");
        sp.m_p1_x = v_real("p1x"); sp.m_p1_y = v_real("p1y"); sp.m_p2_x = v_real("p2x"); sp.m_p2_y = v_real("p2y");
    }
    void anchors() {
        for (int e = 0; e < 2; ++e) {
            int i = rb[e].index;
            double lx = e ? sp.m_p2_x : sp.m_p1_x, ly = e ? sp.m_p2_y : sp.m_p1_y;
            double th = i < 0 ? rb[e].theta : q.b[TH][i], X = i < 0 ? rb[e].p_x : q.b[P_X][i], Y = i < 0 ? rb[e].p_y : q.b[P_Y][i];
            double c = std::cos(th), d = std::sin(th);
            double rx = c * lx - d * ly, ry = d * lx + c * ly;
            ax[e] = X + rx; ay[e] = Y + ry;
            vx[e] = i < 0 ? 0 : q.b[V_X][i] - q.b[V_T][i] * ry;
            vy[e] = i < 0 ? 0 : q.b[V_Y][i] + q.b[V_T][i] * rx;
        }
    }
    // expected force on end 1 given the elastic unit vector / length
    void expect(int e, double fx, double fy, const char *id) {
        int i = rb[e].index;
        if (i < 0) return;
        v_eq(s.f_x[i] - q.b[F_X][i], fx, id);
        v_eq(s.f_y[i] - q.b[F_Y][i], fy, id);
        v_eq(s.t[i] - q.b[TQ][i], (ax[e] - q.b[P_X][i]) * fy - (ay[e] - q.b[P_Y][i]) * fx, id);
    }
};
static void others(Sp &t) {
    for (int k = 0; k < t.q.n; ++k)
        if (k != t.rb[0].index && k != t.rb[1].index) { v_eq(t.s.f_x[k], t.q.b[F_X][k], "others"); v_eq(t.s.f_y[k], t.q.b[F_Y][k], "others"); v_eq(t.s.t[k], t.q.b[TQ][k], "others"); }
    v_reach("others");
    sameState(t.s, t.q, "others", FORCES);
}
extern "C" {
// equal and opposite forces at the two anchors, on the line between them up to damping
void c21_pair() {
    Sp t; t.conf(true);
    int n = v_choice("wide", 0, 1) ? FAR_N : 3;
    slots(t.rb, 2, n);
    symState(t.s, t.q, "s", n, 1);
    t.anchors();
    double dx = t.ax[1] - t.ax[0], dy = t.ay[1] - t.ay[0];
    v_assume(std::sqrt(dx * dx + dy * dy) >= 1E-2);
    t.sp.apply(&t.s);
    int i = t.rb[0].index, j = t.rb[1].index;
    double fx = t.s.f_x[i] - t.q.b[F_X][i], fy = t.s.f_y[i] - t.q.b[F_Y][i];
    v_eq(fx + (t.s.f_x[j] - t.q.b[F_X][j]), 0, "balance");
    v_eq(fy + (t.s.f_y[j] - t.q.b[F_Y][j]), 0, "balance");
    t.expect(0, fx, fy, "at-anchor");
    t.expect(1, -fx, -fy, "at-anchor");
    double ex = fx - t.sp.m_kd * (t.vx[1] - t.vx[0]), ey = fy - t.sp.m_kd * (t.vy[1] - t.vy[0]);
    v_eq(ex * dy - ey * dx, 0, "line");
    others(t);
    t.s.destroy();
}
// undamped: minus the gradient of the reported energy
void c21_gradient() {
    Sp t; t.conf(false);
    t.rb[0].index = 0; t.rb[1].index = 1;
    symState(t.s, t.q, "s", 2, 0);
    for (int e = 0; e < 2; ++e) { t.rb[e].p_x = t.q.b[P_X][e]; t.rb[e].p_y = t.q.b[P_Y][e]; t.rb[e].theta = t.q.b[TH][e]; }
    t.anchors();
    double dx = t.ax[1] - t.ax[0], dy = t.ay[1] - t.ay[0];
    v_assume(std::sqrt(dx * dx + dy * dy) >= 1E-2);
    double E = t.sp.energy();
    t.sp.apply(&t.s);
    static const char *nm[2][3] = {{"sh_0", "si_0", "sc_0"}, {"sh_1", "si_1", "sc_1"}};
    for (int e = 0; e < 2; ++e) {
        v_eq(t.s.f_x[e] - t.q.b[F_X][e], -v_deriv(E, nm[e][0]), "gradient");
        v_eq(t.s.f_y[e] - t.q.b[F_Y][e], -v_deriv(E, nm[e][1]), "gradient");
        v_eq(t.s.t[e] - t.q.b[TQ][e], -v_deriv(E, nm[e][2]), "gradient");
    }
    t.s.destroy();
}
// without stiffness: minus kd times the relative anchor velocity, power never positive
void c21_damping() {
    Sp t; t.conf(true);
    t.sp.m_ks = 0;
    v_assume(t.sp.m_kd >= 0);
    t.rb[0].index = v_choice("s0", 0, 1); t.rb[1].index = 1 - t.rb[0].index;
    symState(t.s, t.q, "s", 2, 0);
    t.anchors();
    double ux = t.ax[1] - t.ax[0], uy = t.ay[1] - t.ay[0];
    v_assume(std::sqrt(ux * ux + uy * uy) >= 1E-2);
    t.sp.apply(&t.s);
    double rx = t.vx[1] - t.vx[0], ry = t.vy[1] - t.vy[0];
    t.expect(0, t.sp.m_kd * rx, t.sp.m_kd * ry, "damping");
    t.expect(1, -t.sp.m_kd * rx, -t.sp.m_kd * ry, "damping");
    double P = 0;
    for (int i = 0; i < 2; ++i) P += (t.s.f_x[i] - t.q.b[F_X][i]) * t.q.b[V_X][i] + (t.s.f_y[i] - t.q.b[F_Y][i]) * t.q.b[V_Y][i] + (t.s.t[i] - t.q.b[TQ][i]) * t.q.b[V_T][i];
    v_eq(P, -t.sp.m_kd * (rx * rx + ry * ry), "dissipates");
    double kd = v_real("kd"), z = v_real("z");
    v_assume(z >= 0); v_le(-kd * z, 0, "dissipates");
    t.s.destroy();
}
// anchors closer than 0.01: damping only
void c21_close() {
    Sp t; t.conf(true);
    t.rb[0].index = 0; t.rb[1].index = 1;
    symState(t.s, t.q, "s", 2, 0);
    t.sp.m_p1_x = t.sp.m_p1_y = t.sp.m_p2_x = t.sp.m_p2_y = 0;
    double dx = v_real("dx"), dy = v_choice("axis", 0, 1) ? v_real("dy") : 0;
    v_assume(dx * dx + dy * dy < 1E-4);
    t.s.p_x[1] = t.q.b[P_X][1] = t.q.b[P_X][0] + dx;
    t.s.p_y[1] = t.q.b[P_Y][1] = t.q.b[P_Y][0] + dy;
    t.anchors();
    t.sp.apply(&t.s);
    double rx = t.vx[1] - t.vx[0], ry = t.vy[1] - t.vy[0];
    t.expect(0, t.sp.m_kd * rx, t.sp.m_kd * ry, "dropped");
    t.expect(1, -t.sp.m_kd * rx, -t.sp.m_kd * ry, "dropped");
    t.s.destroy();
}
// at or beyond 0.01: Hooke's law along the line, for either direction
void c21_threshold() {
    Sp t; t.conf(true);
    t.rb[0].index = 0; t.rb[1].index = 1;
    symState(t.s, t.q, "s", 2, 0);
    t.sp.m_p1_x = t.sp.m_p1_y = t.sp.m_p2_x = t.sp.m_p2_y = 0;
    double l = v_real("l"), al = v_real("al");
    v_assume(l >= 1E-2);
    double ux = std::cos(al), uy = std::sin(al);
    t.s.p_x[1] = t.q.b[P_X][1] = t.q.b[P_X][0] + l * ux;
    t.s.p_y[1] = t.q.b[P_Y][1] = t.q.b[P_Y][0] + l * uy;
    t.anchors();
    t.sp.apply(&t.s);
    double rx = t.vx[1] - t.vx[0], ry = t.vy[1] - t.vy[0], x = l - t.sp.m_restLength;
    t.expect(0, ux * x * t.sp.m_ks + t.sp.m_kd * rx, uy * x * t.sp.m_ks + t.sp.m_kd * ry, "elastic");
    t.expect(1, -ux * x * t.sp.m_ks - t.sp.m_kd * rx, -uy * x * t.sp.m_ks - t.sp.m_kd * ry, "elastic");
    t.s.destroy();
}
// one or both ends on a body outside the system
void c21_static() {
    Sp t; t.conf(true);
    int st = v_choice("static", 0, 2), n = v_choice("wide", 0, 1) ? FAR_N : 3, i = v_choice("s", 0, 2);
    if (n == FAR_N) i = i == 0 ? 128 : i == 1 ? 256 : 299;
    t.rb[0].index = st == 0 ? -1 : st == 1 ? i : -1;
    t.rb[1].index = st == 0 ? i : st == 1 ? -1 : -1;
    for (int e = 0; e < 2; ++e) {
        t.rb[e].p_x = v_realn("bx", e); t.rb[e].p_y = v_realn("by", e); t.rb[e].theta = v_realn("bt", e);
        t.rb[e].v_x = v_realn("bvx", e); t.rb[e].v_y = v_realn("bvy", e); t.rb[e].v_theta = v_realn("bw", e);
    }
    symState(t.s, t.q, "s", n, 1);
    bool near = v_choice("near", 0, 1);
    if (near) {
        t.sp.m_p1_x = t.sp.m_p1_y = t.sp.m_p2_x = t.sp.m_p2_y = 0;
        double ox = v_real("ox"), oy = v_real("oy");
        v_assume(ox * ox + oy * oy < 1E-4);
        if (st == 2) { t.rb[1].p_x = t.rb[0].p_x + ox; t.rb[1].p_y = t.rb[0].p_y + oy; }
        else { t.s.p_x[i] = t.q.b[P_X][i] = t.rb[st == 0 ? 0 : 1].p_x + ox; t.s.p_y[i] = t.q.b[P_Y][i] = t.rb[st == 0 ? 0 : 1].p_y + oy; }
    }
    t.anchors();
    double dx = t.ax[1] - t.ax[0], dy = t.ay[1] - t.ay[0];
    double l = std::sqrt(dx * dx + dy * dy);
    if (!near) v_assume(l >= 1E-2);
    double bx1 = t.rb[1].p_x, by1 = t.rb[1].p_y;
    t.sp.apply(&t.s);
    if (st != 2) {
        int e = st == 0 ? 1 : 0;
        double fx = t.s.f_x[i] - t.q.b[F_X][i], fy = t.s.f_y[i] - t.q.b[F_Y][i];
        t.expect(e, fx, fy, "static-end");
        double sg = e ? -1 : 1;
        double rx = t.vx[1] - t.vx[0], ry = t.vy[1] - t.vy[0];
        double x = l - t.sp.m_restLength;
        if (!near) {
            v_eq(fx, sg * (dx / l * x * t.sp.m_ks + rx * t.sp.m_kd), "static-end");
            v_eq(fy, sg * (dy / l * x * t.sp.m_ks + ry * t.sp.m_kd), "static-end");
        } else {
            v_eq(fx, sg * rx * t.sp.m_kd, "static-end");
            v_eq(fy, sg * ry * t.sp.m_kd, "static-end");
        }
    }
    v_reach("static-end");
    others(t);
    for (int e = 0; e < 2; ++e) {
        v_eq(t.rb[e].p_x, e ? bx1 : v_realn("bx", e), "body-kept"); v_eq(t.rb[e].p_y, e ? by1 : v_realn("by", e), "body-kept"); v_eq(t.rb[e].theta, v_realn("bt", e), "body-kept");
        v_eq(t.rb[e].v_x, v_realn("bvx", e), "body-kept"); v_eq(t.rb[e].v_y, v_realn("bvy", e), "body-kept"); v_eq(t.rb[e].v_theta, v_realn("bw", e), "body-kept");
    }
    t.s.destroy();
}
void c21_missing() {
    Sp t; t.conf(true);
    int w = v_choice("missing", 0, 2);
    if (w != 1) t.sp.m_body1 = nullptr;
    if (w != 0) t.sp.m_body2 = nullptr;
    t.rb[0].index = 0; t.rb[1].index = 1;
    symState(t.s, t.q, "s", 2, 1);
    t.sp.apply(&t.s);
    sameState(t.s, t.q, "nothing");
    v_eq(t.sp.energy(), 0, "nothing");
    double a = 1, b = 2, c = 3, d = 4;
    t.sp.getEnds(&a, &b, &c, &d);
    v_eq(a, 1, "nothing"); v_eq(b, 2, "nothing"); v_eq(c, 3, "nothing"); v_eq(d, 4, "nothing");
    Spring fresh;
    fresh.apply(&t.s);
    sameState(t.s, t.q, "nothing");
    t.s.destroy();
}
void c21_energy() {
    Sp t; t.conf(true);
    t.rb[0].index = t.rb[1].index = -1;
    for (int e = 0; e < 2; ++e) { t.rb[e].p_x = v_realn("bx", e); t.rb[e].p_y = v_realn("by", e); t.rb[e].theta = v_realn("bt", e); }
    t.anchors();
    double x1, y1, x2, y2;
    t.sp.getEnds(&x1, &y1, &x2, &y2);
    v_eq(x1, t.ax[0], "ends"); v_eq(y1, t.ay[0], "ends"); v_eq(x2, t.ax[1], "ends"); v_eq(y2, t.ay[1], "ends");
    double dx = t.ax[1] - t.ax[0], dy = t.ay[1] - t.ay[0], l = std::sqrt(dx * dx + dy * dy);
    v_eq(t.sp.energy(), t.sp.m_ks * (l - t.sp.m_restLength) * (l - t.sp.m_restLength) / 2, "energy");
}
}
