// C16 residual geometry
#include "con.h"
//@ bound the five position constraints, states of 3 bodies, every pair of distinct slots; any of ten pairs of slots among 300 bodies; every pose, motion and parameter an arbitrary real, directions of line and rolling constraints arbitrary (rolling: unit)
//@ entry c16_fixpos need=residual,gains
//@ entry c16_fixrot need=residual,gains
//@ entry c16_line need=residual,gains,on-line
//@ entry c16_link need=residual,gains
//@ entry c16_roll_distance need=distance,gains
//@ entry c16_roll_slip need=no-slip
//@ entry c16_defaults need=default
static void anchor(SystemState &s, int i, double x, double y, double *wx, double *wy) {
    double c = std::cos(s.theta[i]), d = std::sin(s.theta[i]);
    *wx = s.p_x[i] + c * x - d * y; *wy = s.p_y[i] + d * x + c * y;
}
struct Set {
    Cons cs; RigidBody rb[2]; SystemState s; SnapBig q; Constraint::Output o;
    int k;
    Set(int k) : k(k) {
        cs.params(k);
        cs.bodies(k, &rb[0], &rb[1]);
        int n = v_choice("wide", 0, 1) ? FAR_N : 3;
        slots(rb, bodiesOf(k), n);
        symState(s, q, "s", n, 2);
    }
    void calc() { cs.get(k).calculate(&o, &s); }
    void gains() {
        for (int r = 0; r < rowsOf(k); ++r) {
            bool off = k == ROLL && r == 0;
            v_eq(o.ks[r], off ? 0 : v_real("ks"), "gains");
            v_eq(o.kd[r], off ? 0 : v_real("kd"), "gains");
        }
    }
};
extern "C" {
void c16_fixpos() {
    Set t(FIXPOS); t.calc();
    double x, y;
    anchor(t.s, t.rb[0].index, v_real("pa"), v_real("pb"), &x, &y);
    v_eq(t.o.C[0], x - v_real("pc"), "residual");
    v_eq(t.o.C[1], y - v_real("pd"), "residual");
    t.gains(); t.s.destroy();
}
void c16_fixrot() {
    Set t(FIXROT); t.calc();
    v_eq(t.o.C[0], t.s.theta[t.rb[0].index] - v_real("pa"), "residual");
    t.gains(); t.s.destroy();
}
void c16_line() {
    Set t(LINE); 
    int i = t.rb[0].index;
    double dx = v_real("pe"), dy = v_real("pf");
    if (v_choice("on", 0, 1)) {
        // a body placed with its anchor on the line
        double c = std::cos(t.s.theta[i]), d = std::sin(t.s.theta[i]), u = v_real("u");
        t.s.p_x[i] = v_real("pc") + u * dx - (c * v_real("pa") - d * v_real("pb"));
        t.s.p_y[i] = v_real("pd") + u * dy - (d * v_real("pa") + c * v_real("pb"));
        t.calc();
        v_eq(t.o.C[0], 0, "on-line");
    } else {
        t.calc();
        double x, y;
        anchor(t.s, i, v_real("pa"), v_real("pb"), &x, &y);
        v_eq(t.o.C[0], dx * (y - v_real("pd")) - dy * (x - v_real("pc")), "residual");
    }
    v_reach("on-line");
    t.gains(); t.s.destroy();
}
void c16_link() {
    Set t(LINK); t.calc();
    double x1, y1, x2, y2;
    anchor(t.s, t.rb[0].index, v_real("pa"), v_real("pb"), &x1, &y1);
    anchor(t.s, t.rb[1].index, v_real("pc"), v_real("pd"), &x2, &y2);
    v_eq(t.o.C[0], x1 - x2, "residual");
    v_eq(t.o.C[1], y1 - y2, "residual");
    t.gains(); t.s.destroy();
}
// base frame of a rolling constraint with unit direction at angle al
struct Roll {
    double ox, oy, dx, dy;
    Roll(SystemState &s, int i, RollingConstraint &c, double al) {
        c.m_dx = std::cos(al); c.m_dy = std::sin(al);
        anchor(s, i, c.m_local_x, c.m_local_y, &ox, &oy);
        double cc = std::cos(s.theta[i]), ss = std::sin(s.theta[i]);
        dx = cc * c.m_dx - ss * c.m_dy; dy = ss * c.m_dx + cc * c.m_dy;
    }
};
void c16_roll_distance() {
    Set t(ROLL);
    Roll f(t.s, t.rb[0].index, t.cs.ro, v_real("al"));
    int j = t.rb[1].index;
    double r = t.cs.ro.m_radius;
    if (v_choice("contact", 0, 1)) {
        double u = v_real("u");
        t.s.p_x[j] = f.ox + u * f.dx - r * f.dy;
        t.s.p_y[j] = f.oy + u * f.dy + r * f.dx;
        t.calc();
        v_eq(t.o.C[1], 0, "distance");
    } else {
        // centre at another signed distance
        double u = v_real("u"), h = v_real("h");
        v_assume(h != r);
        t.s.p_x[j] = f.ox + u * f.dx - h * f.dy;
        t.s.p_y[j] = f.oy + u * f.dy + h * f.dx;
        t.calc();
        v_assert(t.o.C[1] != 0, "distance");
    }
    v_reach("distance");
    t.gains(); t.s.destroy();
}
void c16_roll_slip() {
    Set t(ROLL);
    int i = t.rb[0].index, j = t.rb[1].index;
    double r = t.cs.ro.m_radius, tau = v_real("tau");
    SystemState &s = t.s;
    double w3 = s.v_theta[i], w6 = s.v_theta[j];
    s.p_x[i] += s.v_x[i] * tau; s.p_y[i] += s.v_y[i] * tau; s.theta[i] += w3 * tau; s.theta[j] += w6 * tau;
    Roll f(s, i, t.cs.ro, v_real("al"));
    double u = v_real("u");
    bool rolls = v_choice("rolls", 0, 1);
    if (rolls) u = -(w6 - w3) * r;
    else v_assume(u + (w6 - w3) * r != 0);
    // in contact at every time, travelling along the line with speed u
    double at = v_real("u0") + u * tau;
    s.p_x[j] = f.ox + at * f.dx - r * f.dy;
    s.p_y[j] = f.oy + at * f.dy + r * f.dx;
    t.calc();
    double dC = v_deriv(t.o.C[0], "tau");
    if (rolls) v_eq(dC, 0, "no-slip");
    else v_assert(dC != 0, "no-slip");
    v_reach("no-slip");
    s.destroy();
}
// as constructed: anchors at the body origin, targets at the world origin
void c16_defaults() {
    SystemState s; Snap q; RigidBody a, b; Constraint::Output o;
    symState(s, q, "s", 2, 0);
    a.index = 0; b.index = 1;
    FixedPositionConstraint fp; fp.setBody(&a); fp.calculate(&o, &s);
    v_eq(o.C[0], s.p_x[0], "default"); v_eq(o.C[1], s.p_y[0], "default");
    FixedRotationConstraint fr; fr.setBody(&b); fr.calculate(&o, &s);
    v_eq(o.C[0], s.theta[1], "default");
    LinkConstraint lk; lk.setBody1(&a); lk.setBody2(&b); lk.calculate(&o, &s);
    v_eq(o.C[0], s.p_x[0] - s.p_x[1], "default"); v_eq(o.C[1], s.p_y[0] - s.p_y[1], "default");
    s.destroy();
}
}
