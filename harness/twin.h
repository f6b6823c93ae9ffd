// Two worlds side by side, the second one a transformed copy of the first.
#pragma once
#include "world.h"
struct P2 { double x, y; };
// the transformation: other units (length, time, mass), mirrored, turned by phi, shifted by (d, e), seen from a frame in which everything moves with (u, w),
// the ends of two-body elements exchanged
struct Frame {
    double c = 1, s = 0, phi = 0, d = 0, e = 0, u = 0, w = 0, L = 1, T = 1, M = 1; bool mirror = false, swap = false, turned = false;
    P2 vec(double x, double y) const { if (mirror) x = -x; return { c * x - s * y, s * x + c * y }; }
    P2 scaled(double x, double y, double f) const { P2 p = vec(x, y); return { f * p.x, f * p.y }; }
    P2 local(double x, double y) const { return { L * (mirror ? -x : x), L * y }; }
    P2 point(double x, double y) const { P2 p = scaled(x, y, L); return { p.x + d, p.y + e }; }
    P2 velocity(double x, double y) const { return scaled(x, y, L / T); }
    P2 force(double x, double y) const { return scaled(x, y, M * L / (T * T)); }
    double sign(double x) const { return mirror ? -x : x; }
    double spin(double x) const { return sign(x) / T; }
    double torque(double x) const { return sign(x) * (M * L * L / (T * T)); }
    double angle(double x) const { return sign(x) + phi; }
};
static inline bool isPoint(int k) { return k == FIXPOS || k == LINK || k == LINE || k == ROLL; }
// rows of the constraint in the new frame from those in the old one: f for rows that measure a distance, g for those that measure an angle
static inline void rows(const Frame &f, int k, double *r, double len, double ang) {
    if (k == FIXPOS || k == LINK) { P2 p = f.vec(r[0], r[1]); r[0] = p.x; r[1] = p.y; }
    else if (k == ROLL) r[1] = f.sign(r[1]);
    else r[0] = f.sign(r[0]);
    for (int i = 0; i < rowsOf(k); ++i) { r[i] *= isPoint(k) ? len : ang; if (f.swap && bodiesOf(k) == 2) r[i] = -r[i]; }
}
static inline void place(Cons &c, int k, const char *t, const Frame &f) {
    double a = sym(t, 0, 0, 0), b = sym(t, 0, 0, 1), x = sym(t, 0, 0, 2), d = sym(t, 0, 0, 3), e = sym(t, 0, 0, 4), g = sym(t, 0, 0, 5), ks = sym(t, 0, 0, 6) / (f.T * f.T), kd = sym(t, 0, 0, 7) / f.T;
    double lo = f.torque(sym(t, 0, 0, 8)), hi = f.torque(sym(t, 0, 0, 9));
    if (f.mirror != (f.swap && k == CLUTCH)) { double z = lo; lo = hi; hi = z; }
    if (f.swap && k == CLUTCH) { lo = -lo; hi = -hi; }
    P2 l = f.local(a, b), m = f.local(x, d), w = f.point(x, d), dir = f.vec(e, g), axis = f.mirror ? P2{ -x, d } : P2{ x, d };
    switch (k) {
        case FIXPOS: c.fp.setLocalPosition(l.x, l.y); c.fp.setWorldPosition(w.x, w.y); c.fp.m_ks = ks; c.fp.m_kd = kd; break;
        case FIXROT: c.fr.m_rotation = f.angle(a); c.fr.m_ks = ks; c.fr.m_kd = kd; break;
        case LINE: c.li.m_local_x = l.x; c.li.m_local_y = l.y; c.li.m_p0_x = w.x; c.li.m_p0_y = w.y; c.li.m_dx = dir.x; c.li.m_dy = dir.y; c.li.m_ks = ks; c.li.m_kd = kd; break;
        case LINK:
            if (f.swap) { c.lk.setLocalPosition1(m.x, m.y); c.lk.setLocalPosition2(l.x, l.y); } else { c.lk.setLocalPosition1(l.x, l.y); c.lk.setLocalPosition2(m.x, m.y); }
            c.lk.m_ks = ks; c.lk.m_kd = kd; c.lk.m_maxForce = f.M * f.L / (f.T * f.T) * sym(t, 0, 0, 9); break;
        case ROLL: c.ro.m_local_x = l.x; c.ro.m_local_y = l.y; c.ro.m_dx = axis.x; c.ro.m_dy = axis.y; c.ro.m_radius = f.L * f.sign(e); c.ro.m_ks = ks; c.ro.m_kd = kd; break;
        case CLUTCH: c.cl.m_ks = ks; c.cl.m_kd = kd; c.cl.m_minTorque = lo; c.cl.m_maxTorque = hi; break;
        case GEAR: c.ge.m_ratio = a; c.ge.m_ks = ks; c.ge.m_kd = kd; break;
        case FRICTION: c.rf.m_ks = ks; c.rf.m_kd = kd; c.rf.m_minTorque = lo; c.rf.m_maxTorque = hi; break;
        default: c.cr.m_rotationSpeed = f.spin(a); c.cr.m_ks = ks; c.cr.m_kd = kd; c.cr.m_minTorque = lo; c.cr.m_maxTorque = hi;
    }
}
// answers the transformed multipliers; with its own frame the plain ones
struct FrameSolver : AnySolver {
    Frame f; int k[4], at[4], count = 0, kind;
    double res[4][MAXROWS];
    FrameSolver(int kd, bool lim) : AnySolver(lim), kind(kd) {}
    void add(int q) { k[count] = q; at[count] = count ? at[count - 1] + rowsOf(k[count - 1]) : 0; ++count; }
    // multipliers are forces, or impulses at velocity level
    double unit() { return f.M * f.L / (kind == NSV_SYS ? f.T : f.T * f.T); }
    double speed() { return 1 / (kind == NSV_SYS ? f.T : f.T * f.T); }
    void note(int call) {
        for (int i = 0; i < count; ++i) rows(f, k[i], lam + at[i], unit(), unit() * f.L);
        if (call < 4) for (int i = 0; i < m; ++i) res[call][i] = A(i) - b[i];
    }
    bool solve(SparseMatrix<3> &Js, Matrix &Wm, Matrix &r, Matrix *, Matrix *out) override { int call = calls; read(Js, Wm, r, out); note(call); answer(out); return true; }
    bool solveWithLimits(SparseMatrix<3> &Js, Matrix &Wm, Matrix &r, Matrix &limits, Matrix *, Matrix *out) override {
        int call = calls;
        read(Js, Wm, r, out);
        ++limited;
        for (int i = 0; i < m; ++i) { lo[i] = limits.get(0, i); hi[i] = limits.get(1, i); }
        note(call);
        answer(out);
        return true;
    }
};
struct FrameForce : ForceGenerator {
    Frame f; int n, calls = 0;
    FrameForce(int n_) : n(n_) {}
    void apply(SystemState *s) override {
        for (int i = 0; i < n; ++i) {
            P2 p = f.force(sym("Fx", 0, calls, i), sym("Fy", 0, calls, i));
            s->f_x[i] += p.x; s->f_y[i] += p.y; s->t[i] += f.torque(sym("Ft", 0, calls, i));
        }
        ++calls;
    }
};
struct World {
    FrameSolver fs; Machine mc; RigidBody rb[3]; Cons cs[2]; FrameForce ff; Frame f;
    Spring sp; ConstantSpeedMotor mo; StaticForceGenerator st; GravityForceGenerator gr;
    World(int kind, const Frame &fr, int n, bool lim = false) : fs(kind, lim), mc(kind, &fs), ff(n), f(fr) {
        fs.f = f; ff.f = f;
        for (int i = 0; i < n; ++i) {
            B6 q; symBody(rb[i], q, i);
            P2 p = f.point(q.p[0], q.p[1]), v = f.velocity(q.v[0], q.v[1]);
            rb[i].p_x = p.x; rb[i].p_y = p.y; rb[i].theta = f.angle(q.p[2]);
            rb[i].v_x = v.x + f.u; rb[i].v_y = v.y + f.w; rb[i].v_theta = f.spin(q.v[2]);
            rb[i].m = f.M * q.m[0]; rb[i].I = f.M * f.L * f.L * q.m[2];
            mc.sys().addRigidBody(&rb[i]);
        }
    }
    void add(int j, int k, int a, int b) {
        place(cs[j], k, j ? "Q" : "P", f);
        bool s = f.swap && bodiesOf(k) == 2;
        cs[j].bodies(k, &rb[s ? b : a], &rb[s ? a : b]);
        fs.add(k);
        mc.sys().addConstraint(&cs[j].get(k));
    }
};
static inline void compare(World &A, World &B, int n, int count, const int *k, double time) {
    const Frame &f = B.f;
    for (int i = 0; i < n; ++i) {
        RigidBody &a = A.rb[i], &b = B.rb[i];
        P2 p = f.point(a.p_x, a.p_y), v = f.velocity(a.v_x, a.v_y);
        v_eq(b.p_x, p.x + time * f.u, "body"); v_eq(b.p_y, p.y + time * f.w, "body"); v_eq(b.theta, f.angle(a.theta), "body");
        v_eq(b.v_x, v.x + f.u, "body"); v_eq(b.v_y, v.y + f.w, "body"); v_eq(b.v_theta, f.spin(a.v_theta), "body");
    }
    v_assert(A.fs.calls == B.fs.calls && A.fs.m == B.fs.m && A.fs.limited == B.fs.limited, "calls");
    for (int c = 0; c < A.fs.calls && c < 4 && A.fs.m; ++c) {
        for (int i = 0; i < count; ++i) rows(f, k[i], A.fs.res[c] + A.fs.at[i], f.L * B.fs.speed(), B.fs.speed());
        for (int i = 0; i < A.fs.m; ++i) v_eq(B.fs.res[c][i], A.fs.res[c][i], "equation");
    }
    for (int i = 0; i < count; ++i) {
        Constraint &x = A.cs[i].get(k[i]), &y = B.cs[i].get(k[i]);
        // the rows' forces together
        for (int z = 0; z < bodiesOf(k[i]); ++z) {
            int o = f.swap && bodiesOf(k[i]) == 2 ? 1 - z : z;
            double fx = 0, fy = 0, t = 0, gx = 0, gy = 0, s = 0;
            for (int r = 0; r < rowsOf(k[i]); ++r) { fx += x.F_x[r][z]; fy += x.F_y[r][z]; t += x.F_t[r][z]; gx += y.F_x[r][o]; gy += y.F_y[r][o]; s += y.F_t[r][o]; }
            P2 g = f.force(fx, fy);
            v_eq(gx, g.x, "force"); v_eq(gy, g.y, "force"); v_eq(s, f.torque(t), "force");
        }
        if (A.fs.limited && (k[i] == CLUTCH || k[i] == FRICTION || k[i] == CONSTROT || (k[i] == LINK && !f.turned)))
            for (int r = 0; r < rowsOf(k[i]); ++r) {
                int at = A.fs.at[i] + r;
                double g = isPoint(k[i]) ? B.fs.unit() : B.fs.unit() * f.L;
                bool flip = (f.swap && bodiesOf(k[i]) == 2) != (f.mirror && (!isPoint(k[i]) || r == 0));
                v_eq(B.fs.lo[at], flip ? -g * A.fs.hi[at] : g * A.fs.lo[at], "limits"); v_eq(B.fs.hi[at], flip ? -g * A.fs.lo[at] : g * A.fs.hi[at], "limits");
            }
    }
}
static inline void twins(int kind, const Frame &f, int count, int n, int steps, unsigned kinds, bool lim = false) {
    Frame id;
    World A(kind, id, n, lim), B(kind, f, n, lim);
    int k[2];
    for (int j = 0; j < count; ++j) {
        k[j] = v_choice("kind", 0, N_CON - 1);
        v_assume(kinds >> k[j] & 1);
        int s = j ? v_choice("slots2", 0, n - 1) * 2 + 1 : v_choice("slots", 0, 2 * n - 1);
        if (bodiesOf(k[j]) == 1 || n == 2) v_assume(s < n);
        int a = s % n, b = (a + 1 + s / n) % n;
        A.add(j, k[j], a, b); B.add(j, k[j], a, b);
    }
    A.mc.sys().addForceGenerator(&A.ff); B.mc.sys().addForceGenerator(&B.ff);
    double h = v_real("h"); v_assume(h > 0);
    A.mc.sys().process(steps * h, steps); B.mc.sys().process(f.T * steps * h, steps);
    compare(A, B, n, count, k, f.T * steps * h);
}
enum { ALL_KINDS = (1 << N_CON) - 1, FREE_KINDS = ALL_KINDS & ~(1 << FIXPOS) & ~(1 << LINE), SPIN_KINDS = 1 << FIXROT | 1 << CLUTCH | 1 << GEAR | 1 << FRICTION | 1 << CONSTROT, PAIR_KINDS = 1 << LINK | 1 << CLUTCH };
// the library's forces: 0 spring, 1 motor, 2 static force, 3 weight
static inline void twinForces(int kind, const Frame &f, int what, int steps) {
    Frame id;
    int s = v_choice("slot", 0, 1);
    World A(kind, id, 2), B(kind, f, 2);
    double a = v_real("a"), b = v_real("b"), c = v_real("c"), d = v_real("d"), ks = v_real("ks"), kd = v_real("kd"), len = v_real("len");
    if (what == 1) v_assume(len >= 0);
    for (int i = 0; i < 2; ++i) {
        World &w = i ? B : A; const Frame &g = w.f;
        RigidBody *x = &w.rb[g.swap ? 1 - s : s], *y = &w.rb[g.swap ? s : 1 - s];
        P2 p = g.local(a, b), q = g.local(c, d), F = g.force(c, d);
        double TT = g.T * g.T;
        if (what == 0) {
            w.sp.m_body1 = x; w.sp.m_body2 = y;
            if (g.swap) { P2 z = p; p = q; q = z; }
            w.sp.m_p1_x = p.x; w.sp.m_p1_y = p.y; w.sp.m_p2_x = q.x; w.sp.m_p2_y = q.y; w.sp.m_ks = ks * g.M / TT; w.sp.m_kd = kd * g.M / g.T; w.sp.m_restLength = g.L * len;
            w.mc.sys().addForceGenerator(&w.sp);
        }
        // the damping of the motor works on accelerations
        if (what == 1) { w.mo.m_body0 = x; w.mo.m_body1 = y; w.mo.m_ks = ks * g.M * g.L * g.L / g.T; w.mo.m_kd = kd * g.M * g.L * g.L; w.mo.m_maxTorque = len * g.M * g.L * g.L / TT; w.mo.m_speed = g.swap ? -g.spin(a) : g.spin(a); w.mc.sys().addForceGenerator(&w.mo); }
        if (what == 2) { w.st.m_body = &w.rb[s]; w.st.setPosition(p.x, p.y); w.st.setForce(F.x, F.y); w.mc.sys().addForceGenerator(&w.st); }
        if (what == 3) { w.gr.m_g = ks * g.L / TT; w.mc.sys().addForceGenerator(&w.gr); }
    }
    double h = v_real("h"); v_assume(h > 0);
    A.mc.sys().process(steps * h, steps); B.mc.sys().process(f.T * steps * h, steps);
    compare(A, B, 2, 0, nullptr, f.T * steps * h);
}
