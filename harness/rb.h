// Helpers for whole-system harnesses: stand-ins for the components a system
// is built from, with arbitrary (symbolic) values and a record of each call.
#pragma once
#include "con.h"
#define MAXROWS 8
static inline double sym(const char *tag, int id, int call, int i) {
    static char buf[48];
    int n = 0;
    while (tag[n]) { buf[n] = tag[n]; ++n; }
    if (id < 26) buf[n++] = (char)('A' + id); else { buf[n++] = '_'; for (int x = id; x; x /= 10) buf[n++] = (char)('0' + x % 10); buf[n++] = '_'; }
    if (call < 26) buf[n++] = (char)('a' + call); else { for (int x = call; x; x /= 10) buf[n++] = (char)('0' + x % 10); buf[n++] = '_'; }
    buf[n] = 0;
    return v_realn(buf, i);
}
// any constraint: every number it can hand to the system is arbitrary at every evaluation
struct AnyRow : Constraint {
    int id, calls = 0;
    Output last;
    AnyRow(int id_, int rows, int bodies) : Constraint(rows, bodies), id(id_) {}
    void calculate(Output *o, SystemState *) override {
        for (int r = 0; r < m_constraintCount; ++r) {
            last.C[r] = sym("C", id, calls, r); last.v_bias[r] = sym("B", id, calls, r);
            last.ks[r] = sym("K", id, calls, r); last.kd[r] = sym("D", id, calls, r);
            last.limits[r][0] = sym("Lo", id, calls, r); last.limits[r][1] = sym("Hi", id, calls, r);
            for (int c = 0; c < 3 * m_bodyCount; ++c) { last.J[r][c] = sym("J", id, calls, 6 * r + c); last.J_dot[r][c] = sym("Jd", id, calls, 6 * r + c); }
        }
        ++calls;
        *o = Output();
        for (int r = 0; r < m_constraintCount; ++r) {
            o->C[r] = last.C[r]; o->v_bias[r] = last.v_bias[r]; o->ks[r] = last.ks[r]; o->kd[r] = last.kd[r];
            for (int e = 0; e < 2; ++e) o->limits[r][e] = last.limits[r][e];
            for (int c = 0; c < 3 * m_bodyCount; ++c) { o->J[r][c] = last.J[r][c]; o->J_dot[r][c] = last.J_dot[r][c]; }
        }
    }
};
// any force on any body, new at every evaluation
struct AnyForce : ForceGenerator {
    int id, n, calls = 0;
    double fx[48], fy[48], t[48];
    AnyForce(int id_, int n_) : id(id_), n(n_) {}
    void apply(SystemState *s) override {
        for (int i = 0; i < n; ++i) {
            fx[i] = sym("Fx", id, calls, i); fy[i] = sym("Fy", id, calls, i); t[i] = sym("Ft", id, calls, i);
            s->f_x[i] += fx[i]; s->f_y[i] += fy[i]; s->t[i] += t[i];
        }
        ++calls;
    }
};
// answers any multipliers whatsoever; keeps the equations it was given
struct AnySolver : SleSolver {
    int calls = 0, limited = 0, m = 0, n = 0;
    double J[MAXROWS][36], W[36], b[MAXROWS], lam[MAXROWS], lo[MAXROWS], hi[MAXROWS];
    bool clamp = false;
    AnySolver(bool lim) : SleSolver(lim) {}
    void read(SparseMatrix<3> &Js, Matrix &Wm, Matrix &r, Matrix *res) {
        Matrix D;
        Js.expand(&D);
        m = Js.getHeight(); n = Js.getWidth();
        v_assert(r.getWidth() == 1 || m == 0, "right-shape");
        v_assert(r.getHeight() == m, "right-shape");
        v_assert(Wm.getHeight() == n, "W-shape");
        for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) J[i][j] = D.get(j, i); b[i] = r.get(0, i); lam[i] = sym("lam", 0, calls, i); }
        for (int j = 0; j < n; ++j) W[j] = Wm.get(0, j);
        D.destroy();
        res->resize(1, m);
        ++calls;
    }
    void answer(Matrix *res) { for (int i = 0; i < m; ++i) res->set(0, i, lam[i]); }
    bool solve(SparseMatrix<3> &Js, Matrix &Wm, Matrix &r, Matrix *, Matrix *res) override { read(Js, Wm, r, res); answer(res); return true; }
    bool solveWithLimits(SparseMatrix<3> &Js, Matrix &Wm, Matrix &r, Matrix &limits, Matrix *, Matrix *res) override {
        v_assert(limits.getWidth() == 2 && limits.getHeight() == Js.getHeight(), "limits-shape");
        read(Js, Wm, r, res);
        ++limited;
        for (int i = 0; i < m; ++i) { lo[i] = limits.get(0, i); hi[i] = limits.get(1, i); if (clamp) { v_assume(lam[i] >= lo[i]); v_assume(lam[i] <= hi[i]); } }
        answer(res);
        return true;
    }
    double A(int i) { double s = 0; for (int k = 0; k < m; ++k) for (int j = 0; j < n; ++j) s += J[i][j] * W[j] * J[k][j] * lam[k]; return s; }
};
// a fixed function of the equations it is given, without any memory of its own
struct FuncSolver : SleSolver {
    FuncSolver(bool lim) : SleSolver(lim) {}
    bool go(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix *lim, Matrix *res) {
        int m = J.getHeight();
        res->resize(1, m);
        for (int i = 0; i < m; ++i) {
            double s = 2 * r.get(0, i) + i;
            for (int e = 0; e < 2; ++e) for (int k = 0; k < 3; ++k) s += J.get(i, e, k) * (k + 1);
            if (lim) s += 3 * lim->get(0, i) - lim->get(1, i);
            res->set(0, i, s);
        }
        for (int j = 0; j < W.getHeight(); ++j) if (m) res->add(0, 0, W.get(0, j));
        return true;
    }
    bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix *, Matrix *res) override { return go(J, W, r, nullptr, res); }
    bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix &l, Matrix *, Matrix *res) override { return go(J, W, r, &l, res); }
};
struct B6 { double v[3], p[3], m[3]; };  // velocity, pose, mass (x, y, theta)
static inline void symBody(RigidBody &b, B6 &q, int id, bool unit = false) {
    for (int c = 0; c < 3; ++c) { q.v[c] = sym("v", id, 0, c); q.p[c] = sym("p", id, 0, c); }
    if (unit) q.m[0] = q.m[1] = q.m[2] = 1;
    else { q.m[0] = q.m[1] = sym("m", id, 0, 0); q.m[2] = sym("I", id, 0, 0); v_assume(q.m[0] > 0); v_assume(q.m[2] > 0); }
    b.v_x = q.v[0]; b.v_y = q.v[1]; b.v_theta = q.v[2];
    b.p_x = q.p[0]; b.p_y = q.p[1]; b.theta = q.p[2];
    b.m = q.m[0]; b.I = q.m[2];
}
static inline void takeBody(RigidBody &b, B6 &q) {
    q.v[0] = b.v_x; q.v[1] = b.v_y; q.v[2] = b.v_theta;
    q.p[0] = b.p_x; q.p[1] = b.p_y; q.p[2] = b.theta;
    q.m[0] = q.m[1] = b.m; q.m[2] = b.I;
}
static inline void sameBody(RigidBody &b, RigidBody &c, const char *id) {
    v_eq(b.v_x, c.v_x, id); v_eq(b.v_y, c.v_y, id); v_eq(b.v_theta, c.v_theta, id);
    v_eq(b.p_x, c.p_x, id); v_eq(b.p_y, c.p_y, id); v_eq(b.theta, c.theta, id);
    v_eq(b.m, c.m, id); v_eq(b.I, c.I, id);
}
static inline void sameForces(Constraint &c, Constraint &d, const char *id) {
    for (int r = 0; r < 3; ++r) for (int k = 0; k < 2; ++k) { v_eq(c.F_x[r][k], d.F_x[r][k], id); v_eq(c.F_y[r][k], d.F_y[r][k], id); v_eq(c.F_t[r][k], d.F_t[r][k], id); }
}
static inline double reported(Constraint &c, int row, int body, int k) { return k == 0 ? c.F_x[row][body] : k == 1 ? c.F_y[row][body] : c.F_t[row][body]; }
