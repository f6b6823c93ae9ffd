// What each kind of constraint demands, from the geometry alone.
#pragma once
#include "world.h"
struct P2 { double x, y; };
// point (lx, ly) of the body at pose q, relative to its centre
static P2 arm(const B6 &q, double lx, double ly) { double c = cos(q.p[2]), s = sin(q.p[2]); return { c * lx - s * ly, s * lx + c * ly }; }
static P2 rate(const B6 &u, P2 r) { return { u.v[0] - u.v[2] * r.y, u.v[1] + u.v[2] * r.x }; }
// acceleration of a point of the body: linear and angular acceleration in a, angular velocity w
static P2 accel(const double *a, double w, P2 r) { return { a[0] - a[2] * r.y - w * w * r.x, a[1] + a[2] * r.x - w * w * r.y }; }
struct Target { double C[2], V[2], A[2], bias, ks[2], kd[2]; };
// how far the mechanism is off, how fast that changes at velocity u, and how it accelerates at velocity s and acceleration a, from the geometry alone
static Target target(int k, const char *t, const B6 &q0, const B6 &q1, const B6 &u0, const B6 &u1, const double *a0, const double *a1) {
    Target T = {};
    double a = sym(t, 0, 0, 0), b = sym(t, 0, 0, 1), c = sym(t, 0, 0, 2), d = sym(t, 0, 0, 3), e = sym(t, 0, 0, 4), f = sym(t, 0, 0, 5), ks = sym(t, 0, 0, 6), kd = sym(t, 0, 0, 7);
    for (int r = 0; r < 2; ++r) { T.ks[r] = ks; T.kd[r] = kd; }
    double w0 = q0.v[2], w1 = q1.v[2];
    if (k == FIXPOS) {
        P2 r = arm(q0, a, b), v = rate(u0, r), x = accel(a0, w0, r);
        T.C[0] = q0.p[0] + r.x - c; T.C[1] = q0.p[1] + r.y - d; T.V[0] = v.x; T.V[1] = v.y; T.A[0] = x.x; T.A[1] = x.y;
    } else if (k == LINE) {
        P2 r = arm(q0, a, b), v = rate(u0, r), x = accel(a0, w0, r);
        T.C[0] = e * (q0.p[1] + r.y - d) - f * (q0.p[0] + r.x - c); T.V[0] = e * v.y - f * v.x; T.A[0] = e * x.y - f * x.x;
    } else if (k == LINK) {
        P2 r = arm(q0, a, b), z = arm(q1, c, d), v = rate(u0, r), y = rate(u1, z), x = accel(a0, w0, r), g = accel(a1, w1, z);
        T.C[0] = q0.p[0] + r.x - q1.p[0] - z.x; T.C[1] = q0.p[1] + r.y - q1.p[1] - z.y; T.V[0] = v.x - y.x; T.V[1] = v.y - y.y; T.A[0] = x.x - g.x; T.A[1] = x.y - g.y;
    } else if (k == ROLL) {
        P2 o = arm(q0, a, b), dir = arm(q0, c, d), R = { q1.p[0] - q0.p[0], q1.p[1] - q0.p[1] }, D = { R.x - o.x, R.y - o.y }, m = rate(u0, R), y = accel(a0, w0, R), ms = rate(q0, R);
        P2 rel = { u1.v[0] - m.x, u1.v[1] - m.y }, rs = { q1.v[0] - ms.x, q1.v[1] - ms.y };
        P2 x = { a1[0] - y.x + 2 * w0 * rs.y, a1[1] - y.y - 2 * w0 * rs.x };
        T.C[0] = e * (q0.p[2] - q1.p[2]) - (dir.x * D.x + dir.y * D.y); T.C[1] = e - (dir.x * D.y - dir.y * D.x);
        T.V[0] = e * (u0.v[2] - u1.v[2]) - (dir.x * rel.x + dir.y * rel.y); T.V[1] = -(dir.x * rel.y - dir.y * rel.x);
        T.A[0] = e * (a0[2] - a1[2]) - (dir.x * x.x + dir.y * x.y); T.A[1] = -(dir.x * x.y - dir.y * x.x);
        T.ks[0] = T.kd[0] = 0;
    } else if (k == FIXROT) { T.C[0] = q0.p[2] - a; T.V[0] = u0.v[2]; T.A[0] = a0[2]; }
    else if (k == CLUTCH) { T.V[0] = u1.v[2] - u0.v[2]; T.A[0] = a1[2] - a0[2]; }
    else if (k == GEAR) { T.V[0] = u0.v[2] - a * u1.v[2]; T.A[0] = a0[2] - a * a1[2]; }
    else { T.V[0] = u0.v[2]; T.A[0] = a0[2]; if (k == CONSTROT) T.bias = a; }
    return T;
}
static void setup(Cons &c, int k, const char *t) {
    double a = sym(t, 0, 0, 0), b = sym(t, 0, 0, 1), x = sym(t, 0, 0, 2), d = sym(t, 0, 0, 3), e = sym(t, 0, 0, 4), f = sym(t, 0, 0, 5), ks = sym(t, 0, 0, 6), kd = sym(t, 0, 0, 7);
    switch (k) {
        case FIXPOS: c.fp.setLocalPosition(a, b); c.fp.setWorldPosition(x, d); c.fp.m_ks = ks; c.fp.m_kd = kd; break;
        case FIXROT: c.fr.m_rotation = a; c.fr.m_ks = ks; c.fr.m_kd = kd; break;
        case LINE: c.li.m_local_x = a; c.li.m_local_y = b; c.li.m_p0_x = x; c.li.m_p0_y = d; c.li.m_dx = e; c.li.m_dy = f; c.li.m_ks = ks; c.li.m_kd = kd; break;
        case LINK: c.lk.setLocalPosition1(a, b); c.lk.setLocalPosition2(x, d); c.lk.m_ks = ks; c.lk.m_kd = kd; break;
        case ROLL: c.ro.m_local_x = a; c.ro.m_local_y = b; c.ro.m_dx = x; c.ro.m_dy = d; c.ro.m_radius = e; c.ro.m_ks = ks; c.ro.m_kd = kd; break;
        case CLUTCH: c.cl.m_ks = ks; c.cl.m_kd = kd; break;
        case GEAR: c.ge.m_ratio = a; c.ge.m_ks = ks; c.ge.m_kd = kd; break;
        case FRICTION: c.rf.m_ks = ks; c.rf.m_kd = kd; break;
        default: c.cr.m_rotationSpeed = a; c.cr.m_ks = ks; c.cr.m_kd = kd;
    }
}
