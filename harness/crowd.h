// A large population: bodies 0..nb-1, constraints of one to three rows on one
// or two of them. Jacobians, rates and gains are fixed numbers that differ
// between rows, columns and evaluations; everything else is arbitrary.
#pragma once
#include "rb.h"
#define CB 300  // bodies at most
#define CC 140  // constraints at most
#define CR 280  // rows at most
struct Spy { virtual void see(SystemState *s) = 0; };  // looks at the state at each evaluation
struct CrowdRow : Constraint {
    int id, calls = 0; Spy *spy = nullptr;
    Output last;
    double seen[2][6];  // the bodies as they were when it was last evaluated
    CrowdRow(int i) : Constraint(1 + (i % 3), 1 + (i % 5 != 0)), id(i) {}
    static double num(int x) { x = (x * 37 + 11) % 101; return x % 13 - 6; }
    void calculate(Output *o, SystemState *s) override {
        if (spy) spy->see(s);
        for (int b = 0; b < m_bodyCount; ++b) {
            int i = m_bodies[b]->index;
            if (i == -1) continue;
            seen[b][0] = s->p_x[i]; seen[b][1] = s->p_y[i]; seen[b][2] = s->theta[i]; seen[b][3] = s->v_x[i]; seen[b][4] = s->v_y[i]; seen[b][5] = s->v_theta[i];
        }
        last = Output();
        for (int r = 0; r < m_constraintCount; ++r) {
            last.C[r] = sym("C", id, calls, r); last.v_bias[r] = sym("B", id, calls, r);
            last.ks[r] = 1 + id % 3; last.kd[r] = id % 4;
            last.limits[r][0] = sym("Lo", id, calls, r); last.limits[r][1] = sym("Hi", id, calls, r);
            for (int c = 0; c < 3 * m_bodyCount; ++c) { last.J[r][c] = num(id * 18 + r * 6 + c + 5 * calls); last.J_dot[r][c] = num(id * 19 + r * 5 + c * 2 + calls); }
        }
        *o = last;
        ++calls;
    }
};
// answers any multipliers whatsoever; keeps the equations it was given
struct CrowdSolver : SleSolver {
    int calls = 0, limited = 0, m = 0, n = 0;
    int nz[CR], col[CR][6];  // the entries of each row that are not zero
    double val[CR][6], W[3 * CB], b[CR], lam[8][CR], lo[CR], hi[CR], u[3 * CB];
    bool clamp = false, edge = false;  // answers within the limits; answers one of the limits
    CrowdSolver(bool lim) : SleSolver(lim) {}
    void go(SparseMatrix<3> &Js, Matrix &Wm, Matrix &r, Matrix *res) {
        Matrix D;
        Js.expand(&D);
        m = Js.getHeight(); n = Js.getWidth();
        v_assert(r.getHeight() == m && Wm.getHeight() == n, "rows");
        v_assert(m <= CR && n <= 3 * CB, "rows");
        for (int i = 0; i < m; ++i) {
            nz[i] = 0;
            for (int j = 0; j < n; ++j) if (D.get(j, i) != 0) { v_assert(nz[i] < 6, "rows"); col[i][nz[i]] = j; val[i][nz[i]++] = D.get(j, i); }
            b[i] = r.get(0, i); lam[calls & 7][i] = sym("lam", 0, calls, i);
        }
        for (int j = 0; j < n; ++j) W[j] = Wm.get(0, j);
        D.destroy();
        res->resize(1, m);
        for (int i = 0; i < m; ++i) res->set(0, i, lam[calls & 7][i]);
        for (int j = 0; j < n; ++j) u[j] = 0;
        for (int i = 0; i < m; ++i) for (int k = 0; k < nz[i]; ++k) u[col[i][k]] += val[i][k] * lam[calls & 7][i];
        for (int j = 0; j < n; ++j) u[j] *= W[j];
        ++calls;
    }
    bool solve(SparseMatrix<3> &J_, Matrix &Wm, Matrix &r, Matrix *, Matrix *res) override { go(J_, Wm, r, res); return true; }
    bool solveWithLimits(SparseMatrix<3> &J_, Matrix &Wm, Matrix &r, Matrix &l, Matrix *, Matrix *res) override {
        go(J_, Wm, r, res);
        ++limited;
        v_assert(l.getWidth() == 2 && l.getHeight() == m, "limits");
        for (int i = 0; i < m; ++i) {
            lo[i] = l.get(0, i); hi[i] = l.get(1, i);
            if (edge) { lam[(calls - 1) & 7][i] = i & 1 ? lo[i] : hi[i]; res->set(0, i, lam[(calls - 1) & 7][i]); }
            if (clamp) { v_assume(lam[(calls - 1) & 7][i] >= lo[i]); v_assume(lam[(calls - 1) & 7][i] <= hi[i]); }
        }
        return true;
    }
    double l(int row) { return lam[(calls - 1) & 7][row]; }
    double A(int i) { double s = 0; for (int k = 0; k < nz[i]; ++k) s += val[i][k] * u[col[i][k]]; return s; }
};
// any force on the registered ones of the bodies
struct CrowdForce : ForceGenerator {
    int n, calls = 0; RigidBody *rb;
    double fx[CB], fy[CB], t[CB];
    CrowdForce(RigidBody *b, int n_) : n(n_), rb(b) {}
    void none() { for (int i = 0; i < n; ++i) fx[i] = fy[i] = t[i] = 0; n = 0; }  // from now on
    void apply(SystemState *s) override {
        for (int i = 0; i < n; ++i) {
            fx[i] = sym("Fx", 0, calls, i); fy[i] = sym("Fy", 0, calls, i); t[i] = sym("Ft", 0, calls, i);
            int k = rb[i].index;
            if (k != -1) { s->f_x[k] += fx[i]; s->f_y[k] += fy[i]; s->t[k] += t[i]; }
        }
        ++calls;
    }
};
// sizes every step is checked at: crowds, and systems with next to nothing in them (the last one without forces)
enum { SIZES = 7 };
static const int SIZE_NB[SIZES] = {40, 9, 3, 2, 2, 1, 1}, SIZE_NC[SIZES] = {40, 7, 1, 1, 0, 0, 0};
// and the runs of many sub-steps
enum { FEWS = 4 };
static const int FEW_NB[FEWS] = {5, 3, 2, 1}, FEW_NC[FEWS] = {4, 1, 1, 0};
struct Crowd {
    RigidBody rb[CB]; B6 q[CB]; CrowdRow *c[CC]; CrowdForce f; int nb, nc;
    int era = 0, solved0 = 0, forced0 = 0;
    // (again) the same arbitrary state, and constraints and forces at their first evaluation
    void load(bool concreteMass) {
        for (int i = 0; i < nb; ++i) {
            symBody(rb[i], q[i], i, concreteMass);
            if (concreteMass) { rb[i].m = q[i].m[0] = q[i].m[1] = 1 + i % 3; rb[i].I = q[i].m[2] = 2 + i % 4; }
        }
        f.calls = 0;
    }
    void again(bool concreteMass) { load(concreteMass); for (int j = 0; j < nc; ++j) { c[j]->calls = 0; for (int r = 0; r < 3; ++r) for (int k = 0; k < 2; ++k) c[j]->F_x[r][k] = c[j]->F_y[r][k] = c[j]->F_t[r][k] = 0; } }
    Crowd(int bodies, int cons, bool concreteMass) : f(rb, bodies), nb(bodies), nc(cons) {
        load(concreteMass);
        for (int j = 0; j < nc; ++j) {
            c[j] = new CrowdRow(j);
            int a = (7 * j + 3) % nb, b = (11 * j + 5) % nb;
            if (a == b) b = (b + 1) % nb;
            c[j]->m_bodies[0] = &rb[a];
            if (c[j]->m_bodyCount == 2) c[j]->m_bodies[1] = &rb[b];
        }
    }
    // a new arbitrary state (and new masses); constraints and forces go on with new values
    void renew(bool concreteMass, int solved) {
        ++era; solved0 = solved; forced0 = f.calls;
        for (int i = 0; i < nb; ++i) {
            for (int k = 0; k < 3; ++k) { q[i].v[k] = sym("v", i, era, k); q[i].p[k] = sym("p", i, era, k); }
            if (concreteMass) { q[i].m[0] = q[i].m[1] = 1 + (i + era) % 4; q[i].m[2] = 2 + (i + 2 * era) % 5; }
            else { q[i].m[0] = q[i].m[1] = sym("m", i, era, 0); q[i].m[2] = sym("I", i, era, 0); v_assume(q[i].m[0] > 0); v_assume(q[i].m[2] > 0); }
            rb[i].v_x = q[i].v[0]; rb[i].v_y = q[i].v[1]; rb[i].v_theta = q[i].v[2]; rb[i].p_x = q[i].p[0]; rb[i].p_y = q[i].p[1]; rb[i].theta = q[i].p[2];
            rb[i].m = q[i].m[0]; rb[i].I = q[i].m[2];
        }
    }
    // registers everything, in order, after an earlier life of the system: none, with all of it, with part of it, with something else
    void enter(RigidBodySystem &sys, int past, bool concreteMass, const int &solved) {
        int b0 = 0, c0 = 0;
        if (past == 1) { add(sys); sys.process(0.5, 1); renew(concreteMass, solved); return; }
        if (past == 2) {
            b0 = 2 * nb / 3; c0 = 2 * nc / 3;
            for (int i = 0; i < b0; ++i) sys.addRigidBody(&rb[i]);
            for (int j = 0; j < c0; ++j) sys.addConstraint(c[j]);
            sys.process(0.5, 2);
        }
        if (past == 3) {
            for (int i = nb; i-- > 0;) sys.addRigidBody(&rb[i]);
            for (int j = nc; j-- > nc / 2;) sys.addConstraint(c[j]);
            sys.addForceGenerator(&f);
            sys.process(0.25, 1);
            sys.reset();
            for (int i = 0; i < nb; ++i) rb[i].index = -1;
        }
        if (past >= 4) {  // hundreds of frames of something else: this one is frame number 599, 600 or 601
            RigidBody other; other.index = -1; other.m = 3; other.I = 2; other.v_x = 0.5; other.v_y = -0.25; other.v_theta = 1;
            other.p_x = other.p_y = other.theta = 0;
            sys.addRigidBody(&other);
            for (int k = 0; k < 594 + past; ++k) sys.process(0.125, 1);
            sys.removeRigidBody(&other);
        }
        for (int i = b0; i < nb; ++i) sys.addRigidBody(&rb[i]);
        for (int j = c0; j < nc; ++j) sys.addConstraint(c[j]);
        sys.addForceGenerator(&f);
        if (past) renew(concreteMass, solved);
    }
    // every third body leaves the system; constraints and forces stay
    void leave(RigidBodySystem &sys) { for (int i = 0; i < nb; ++i) if (i % 3 == 1) sys.removeRigidBody(&rb[i]); }
    ~Crowd() { for (int j = 0; j < nc; ++j) delete c[j]; }
    void add(RigidBodySystem &sys) {
        for (int i = 0; i < nb; ++i) sys.addRigidBody(&rb[i]);
        for (int j = 0; j < nc; ++j) sys.addConstraint(c[j]);
        sys.addForceGenerator(&f);
    }
    int rows() { int n = 0; for (int j = 0; j < nc; ++j) n += c[j]->getConstraintCount(); return n; }
    // the equation each row stands for; x1 is the velocity it is about, and the momentum balance of each body.
    // acceleration level: J dv + dt (Jdot v + kd J v + ks C) = 0; velocity level: h J v1 + h bias + beta C = 0
    void verify(CrowdSolver &as, bool nsv, double h, double beta, const char *momentum, const B6 *end = nullptr) {
        double z[CB][3], R[CB][3];
        int n = 0;
        for (int i = 0; i < nb; ++i) {
            B6 y; if (end) y = end[i]; else takeBody(rb[i], y);
            for (int k = 0; k < 3; ++k) z[i][k] = y.v[k];
            if (rb[i].index == -1) { for (int k = 0; k < 3; ++k) { v_eq(y.v[k], q[i].v[k], "untouched"); v_eq(y.p[k], q[i].p[k], "untouched"); v_eq(y.m[k], q[i].m[k], "untouched"); } continue; }
            ++n;
            for (int k = 0; k < 3; ++k) { v_eq(y.p[k], q[i].p[k] + h * (nsv ? y.v[k] : q[i].v[k]), "pose"); v_eq(y.m[k], q[i].m[k], "mass-kept"); }
            R[i][0] = h * f.fx[i]; R[i][1] = h * f.fy[i]; R[i][2] = h * f.t[i];
        }
        int row = 0;
        for (int j = 0; j < nc; ++j) for (int b = 0; b < c[j]->m_bodyCount; ++b) {
            int i = (int)(c[j]->m_bodies[b] - rb);
            if (rb[i].index == -1) continue;
            v_assert(c[j]->calls > 0, "evaluated");
            for (int k = 0; k < 3; ++k) { v_eq(c[j]->seen[b][k], q[i].p[k], "evaluated"); v_eq(c[j]->seen[b][3 + k], q[i].v[k], "evaluated"); }
        }
        for (int j = 0; j < nc; ++j)
            for (int r = 0; r < c[j]->getConstraintCount(); ++r, ++row) {
                Constraint::Output &o = c[j]->last;
                bool in = false;
                double res = nsv ? h * o.v_bias[r] + beta * o.C[r] : o.ks[r] * o.C[r] * h;
                for (int b = 0; b < c[j]->m_bodyCount; ++b) {
                    int i = (int)(c[j]->m_bodies[b] - rb);
                    if (rb[i].index == -1) continue;  // part of the world
                    in = true;
                    for (int k = 0; k < 3; ++k) {
                        double J = o.J[r][3 * b + k], v = q[i].v[k];
                        res += nsv ? h * J * z[i][k] : J * (z[i][k] - v) + h * (o.J_dot[r][3 * b + k] + o.kd[r] * J) * v;
                        R[i][k] += J * as.l(row) * (nsv ? 1 : h);
                    }
                }
                if (in) v_eq(res, h * (as.A(row) - as.b[row]), "equation");
                if (nsv && as.supportsLimits()) { v_eq(as.lo[row], o.limits[r][0] * h, "limits"); v_eq(as.hi[row], o.limits[r][1] * h, "limits"); }
            }
        v_assert(as.m == row && as.n == 3 * n && as.calls == solved0 + 1 && f.calls == forced0 + 1, "rows");
        for (int i = 0; i < nb; ++i) if (rb[i].index != -1) for (int k = 0; k < 3; ++k) v_eq((z[i][k] - q[i].v[k]) * q[i].m[k], R[i][k], momentum);
    }
    // what is left of an equation after the step
    double residual(int j, int r, bool nsv, double h, double beta) {
        Constraint::Output &o = c[j]->last;
        double res = nsv ? h * o.v_bias[r] + beta * o.C[r] : o.ks[r] * o.C[r] * h;
        for (int b = 0; b < c[j]->m_bodyCount; ++b) {
            int i = (int)(c[j]->m_bodies[b] - rb);
            B6 y; takeBody(rb[i], y);
            for (int k = 0; k < 3; ++k) {
                double J = o.J[r][3 * b + k], v = q[i].v[k];
                res += nsv ? h * J * y.v[k] : J * (y.v[k] - v) + h * (o.J_dot[r][3 * b + k] + o.kd[r] * J) * v;
            }
        }
        return res;
    }
    // each body's impulse is the external one and the reported forces'
    void balance(double h, const char *id) {
        double R[CB][3];
        for (int i = 0; i < nb; ++i) { R[i][0] = f.fx[i]; R[i][1] = f.fy[i]; R[i][2] = f.t[i]; }
        for (int j = 0; j < nc; ++j) for (int r = 0; r < c[j]->getConstraintCount(); ++r) for (int b = 0; b < c[j]->m_bodyCount; ++b) for (int k = 0; k < 3; ++k) R[c[j]->m_bodies[b] - rb][k] += reported(*c[j], r, b, k);
        for (int i = 0; i < nb; ++i) if (rb[i].index != -1) { B6 y; takeBody(rb[i], y); for (int k = 0; k < 3; ++k) v_eq((y.v[k] - q[i].v[k]) * q[i].m[k], h * R[i][k], id); }
    }
    void reactions(CrowdSolver &as, double scale) {
        int row = 0;
        for (int j = 0; j < nc; ++j) {
            int nr = c[j]->getConstraintCount();
            for (int r = 0; r < 3; ++r)
                for (int b = 0; b < 2; ++b)
                    for (int k = 0; k < 3; ++k) {
                        double F = reported(*c[j], r, b, k);
                        if (r < nr && b < c[j]->m_bodyCount) { if (c[j]->m_bodies[b]->index != -1) v_eq(F * scale, as.l(row + r) * c[j]->last.J[r][3 * b + k], "row-force"); }
                        else v_eq(F, 0, "absent");
                    }
            row += nr;
        }
    }
};
// checks every sub-step of a frame as soon as it is over: registered before the crowd's own forces
struct Watch : ForceGenerator {
    Crowd *t; CrowdSolver *as; bool nsv; double h, beta; const char *momentum; int n = 0;
    Watch(Crowd &t_, CrowdSolver &as_, bool nsv_, double h_, double beta_, const char *mom, RigidBodySystem &sys) : t(&t_), as(&as_), nsv(nsv_), h(h_), beta(beta_), momentum(mom) {
        sys.removeForceGenerator(&t->f); sys.addForceGenerator(this); sys.addForceGenerator(&t->f);
    }
    void apply(SystemState *s) override {
        B6 e[CB];
        for (int i = 0; i < t->nb; ++i) {
            int k = t->rb[i].index;
            e[i] = t->q[i];
            e[i].v[0] = s->v_x[k]; e[i].v[1] = s->v_y[k]; e[i].v[2] = s->v_theta[k]; e[i].p[0] = s->p_x[k]; e[i].p[1] = s->p_y[k]; e[i].p[2] = s->theta[k];
            if (n == 0) for (int c = 0; c < 3; ++c) { v_eq(e[i].v[c], t->q[i].v[c], "start"); v_eq(e[i].p[c], t->q[i].p[c], "start"); }
        }
        if (n) t->verify(*as, nsv, h, beta, momentum, e);
        for (int i = 0; i < t->nb; ++i) t->q[i] = e[i];
        t->solved0 = as->calls; t->forced0 = t->f.calls;
        ++n;
    }
};
static inline void sameCrowd(Crowd &a, Crowd &b, const char *bodies, const char *forces) {
    for (int i = 0; i < a.nb; ++i) sameBody(a.rb[i], b.rb[i], bodies);
    for (int j = 0; j < a.nc; ++j)
        for (int r = 0; r < a.c[j]->getConstraintCount(); ++r)
            for (int e = 0; e < a.c[j]->m_bodyCount; ++e)
                for (int k = 0; k < 3; ++k) v_eq(reported(*a.c[j], r, e, k), reported(*b.c[j], r, e, k), forces);
}
// one body under a steady force and a steady multiplier, for runs of any number of sub-steps
struct SteadyRow : Constraint {
    int calls = 0;
    SteadyRow() : Constraint(1, 1) {}
    void calculate(Output *o, SystemState *) override {
        ++calls;
        *o = Output();
        o->C[0] = v_real("sC"); o->v_bias[0] = v_real("sB"); o->ks[0] = 2; o->kd[0] = 3; o->limits[0][0] = v_real("sLo"); o->limits[0][1] = v_real("sHi");
        o->J[0][0] = 1; o->J[0][1] = -2; o->J[0][2] = 3; o->J_dot[0][0] = 5; o->J_dot[0][1] = 7;
    }
};
struct SteadySolver : SleSolver {
    int calls = 0;
    SteadySolver(bool lim) : SleSolver(lim) {}
    bool solve(SparseMatrix<3> &, Matrix &, Matrix &r, Matrix *, Matrix *res) override { ++calls; res->resize(1, r.getHeight()); for (int i = 0; i < r.getHeight(); ++i) res->set(0, i, v_real("slam")); return true; }
    bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix &, Matrix *p, Matrix *res) override { return solve(J, W, r, p, res); }
};
struct SteadyForce : ForceGenerator {
    int calls = 0;
    void apply(SystemState *s) override { ++calls; s->f_x[0] += v_real("sFx"); s->f_y[0] += v_real("sFy"); s->t[0] += v_real("sFt"); }
};
struct Steady {
    RigidBody rb; B6 q; SteadyRow c; SteadyForce f;
    Steady(RigidBodySystem &sys, bool row) { symBody(rb, q, 0); sys.addRigidBody(&rb); c.m_bodies[0] = &rb; if (row) sys.addConstraint(&c); sys.addForceGenerator(&f); }
    // n sub-steps of h; position sums of an explicit (0), velocity-first (1) or fourth-order (2) step
    void verify(int n, double h, bool row, int kind, const char *vel, const char *pos) {
        const double F[3] = {v_real("sFx"), v_real("sFy"), v_real("sFt")}, J[3] = {1, -2, 3};
        B6 z; takeBody(rb, z);
        for (int k = 0; k < 3; ++k) {
            double p = h * F[k] + (row ? J[k] * v_real("slam") * (kind == 1 ? 1 : h) : 0);  // momentum of one sub-step
            v_eq(z.m[k] * (z.v[k] - q.v[k]), n * p, vel);
            double N = n, S = kind == 0 ? N * (N - 1) / 2 : kind == 1 ? N * (N + 1) / 2 : N * N / 2;
            v_eq(z.m[k] * (z.p[k] - q.p[k] - N * h * q.v[k]), h * p * S, pos);
        }
    }
};
static const int LONG[5] = {1, 65, 130, 257, 600};
