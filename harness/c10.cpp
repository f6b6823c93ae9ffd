// C10 classical Runge-Kutta
#include "st.h"
//@ bound 0..2 bodies, 0..1 reaction rows, 40 bodies with 70 rows, up to 300 bodies with 200 rows, 40000 bodies; the accelerations of each stage are arbitrary reals (an arbitrary function of the stage state), dt and all states arbitrary reals; linear and constant dynamics also end to end; a second step of another size after a finished or abandoned one
//@ entry c10_stages need=stage-state,update
//@ entry c10_linear need=taylor
//@ entry c10_const need=exact
//@ entry c10_again need=stage-state,update
//@ entry c10_reactions need=mean
//@ entry c10_huge need=update
//@ entry c10_two need=stage-state,update
//@ entry c10_large need=stage-state,update,mean
//@ entry c10_stages_wide thorough need=stage-state,update
static const int P[3] = {P_X, P_Y, TH}, V[3] = {V_X, V_Y, V_T}, A[3] = {A_X, A_Y, A_T};
static const int KIN = 1 << TH | 1 << P_X | 1 << P_Y | 1 << V_T | 1 << V_X | 1 << V_Y | 1 << A_X | 1 << A_Y | 1 << A_T;
static void setDt(double d, double want) { v_eq(d, want, "stage-dt"); }
// one whole step, stage by stage, checked: next() runs one stage
template <class Q> struct Step {
    OdeSolver &o; SystemState &s; Q &q; double dt; const char *tag; int st = 0;
    double kp[5][3][sizeof(q.b[0]) / sizeof(double)], kv[5][3][sizeof(q.b[0]) / sizeof(double)];
    Step(OdeSolver &o, SystemState &s, Q &q, double dt, const char *tag) : o(o), s(s), q(q), dt(dt), tag(tag) { o.start(&s, dt); }
    bool stage() {
        const int n = q.n;
        bool done = o.step(&s);
        ++st;
        v_assert(st <= 4, "four-stages");
        v_assert(done == (st == 4), "four-stages");
        double off = st == 1 ? 0.0 : st == 4 ? 1.0 : 0.5;
        setDt(s.dt, off * dt);
        for (int i = 0; i < n; ++i)
            for (int k = 0; k < 3; ++k) {
                double p = q.b[P[k]][i], v = q.b[V[k]][i];
                if (st > 1) { p += off * dt * kp[st - 1][k][i]; v += off * dt * kv[st - 1][k][i]; }
                v_eq(bodyArr(s, P[k])[i], p, "stage-state");
                v_eq(bodyArr(s, V[k])[i], v, "stage-state");
                kp[st][k][i] = v;
                kv[st][k][i] = v_realn(nameOf(tag, st * 4 + k), i);
                bodyArr(s, A[k])[i] = kv[st][k][i];
            }
        return done;
    }
    void apply() { o.solve(&s); }
    bool half = false, over = false;
    void advance() {   // start has happened; stage, apply, ..., end
        if (over) return;
        if (half) { apply(); half = false; if (st == 4) { finish(); over = true; } }
        else { stage(); half = true; }
    }
    void finish() {
        for (int i = 0; i < q.n; ++i)
            for (int k = 0; k < 3; ++k) {
                double p = q.b[P[k]][i] + dt / 6 * (kp[1][k][i] + 2 * kp[2][k][i] + 2 * kp[3][k][i] + kp[4][k][i]);
                double v = q.b[V[k]][i] + dt / 6 * (kv[1][k][i] + 2 * kv[2][k][i] + 2 * kv[3][k][i] + kv[4][k][i]);
                v_eq(bodyArr(s, P[k])[i], p, "update");
                v_eq(bodyArr(s, V[k])[i], v, "update");
            }
        o.end();
    }
};
template <class Q> static void rk(OdeSolver &o, SystemState &s, Q &q, double dt, const char *tag) {
    Step<Q> t(o, s, q, dt, tag);
    while (true) { bool done = t.stage(); t.apply(); if (done) break; }
    t.finish();
}
extern "C" {
void c10_stages() {
    SystemState s; Snap q; Rk4OdeSolver o;
    symState(s, q, "s", v_choice("n", 0, 2), v_choice("nc", 0, 1));
    double dt = v_real("dt");
    rk(o, s, q, dt, "k");
    for (int i = 0; i < q.n; ++i) { v_eq(s.f_x[i], q.b[F_X][i], "untouched"); v_eq(s.f_y[i], q.b[F_Y][i], "untouched"); v_eq(s.t[i], q.b[TQ][i], "untouched"); v_eq(s.m[i], q.b[MS][i], "untouched"); }
    for (int i = 0; i < q.nc; ++i) v_assert(s.indexMap[i] == q.ix[i], "untouched");
    v_assert(s.n == q.n && s.n_c == q.nc, "counts");
    s.destroy();
}
void c10_large() {
    SystemState s; SnapBig q; Rk4OdeSolver o;
    static const int N[3] = {39, 40, 300}, NC[3] = {70, 71, 200};
    int z = v_choice("size", 0, 2);
    symState(s, q, "s", N[z], NC[z]);
    rk(o, s, q, v_real("dt"), "k");
    // the reactions were not touched between the stages: their mean is what they were
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * q.nc; ++i) v_eq(reactArr(s, k)[i], q.r[k][i], "mean");
    for (int i = 0; i < q.n; ++i) { v_eq(s.f_x[i], q.b[F_X][i], "untouched"); v_eq(s.f_y[i], q.b[F_Y][i], "untouched"); v_eq(s.t[i], q.b[TQ][i], "untouched"); v_eq(s.m[i], q.b[MS][i], "untouched"); }
    for (int i = 0; i < q.nc; ++i) v_assert(s.indexMap[i] == q.ix[i], "untouched");
    s.destroy();
}
void c10_stages_wide() {
    SystemState s; Snap q; Rk4OdeSolver o;
    symState(s, q, "s", v_choice("n", 3, 4), v_choice("nc", 0, 3));
    rk(o, s, q, v_real("dt"), "k");
    s.destroy();
}
// two integrators at work on two states at the same time, in any order of their stages
void c10_two() {
    SystemState s, t; Snap q, u; Rk4OdeSolver a, b;
    symState(s, q, "s", 1, 1); symState(t, u, "t", v_choice("n", 1, 2), 0);
    double h = v_real("h"), k = v_real("k");
    Step<Snap> x(a, s, q, h, "k");
    for (int lead = v_choice("lead", 0, 7), i = 0; i < lead; ++i) x.advance();
    Step<Snap> y(b, t, u, k, "l");
    const bool twice = v_choice("twice", 0, 1) == 1;
    while (!x.over || !y.over) { x.advance(); y.advance(); if (twice) y.advance(); }
    s.destroy(); t.destroy();
}
// linear dynamics: agreement with the flow's Taylor polynomial of degree four
void c10_linear() {
    SystemState s; Snap q; Rk4OdeSolver o;
    symState(s, q, "s", 1, 0);
    double h = v_real("dt"), w = v_real("w"), c = v_real("c");
    o.start(&s, h);
    while (true) {
        bool done = o.step(&s);
        s.a_x[0] = -w * s.p_x[0] - c * s.v_x[0];
        s.a_y[0] = -w * s.p_y[0]; s.a_theta[0] = -c * s.v_theta[0];
        o.solve(&s);
        if (done) break;
    }
    double fact[5] = {1, 1, 2, 6, 24};
    for (int k = 0; k < 3; ++k) {
        double W = k == 2 ? 0 : w, C = k == 1 ? 0 : c;
        double p = q.b[P[k]][0], v = q.b[V[k]][0], hp = 1, sp = 0, sv = 0;
        for (int d = 0; d <= 4; ++d) {
            sp += hp * p / fact[d]; sv += hp * v / fact[d];
            double np = v, nv = -W * p - C * v;
            p = np; v = nv; hp *= h;
        }
        v_eq(bodyArr(s, P[k])[0], sp, "taylor");
        v_eq(bodyArr(s, V[k])[0], sv, "taylor");
    }
    s.destroy();
}
void c10_const() {
    SystemState s; Snap q; Rk4OdeSolver o;
    symState(s, q, "s", 2, 0);
    double h = v_real("dt");
    for (int r = 0; r < 2; ++r) {
        o.start(&s, h);
        while (true) { bool d = o.step(&s); for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) bodyArr(s, A[k])[i] = q.b[A[k]][i]; o.solve(&s); if (d) break; }
        o.end();
    }
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) {
        double p = q.b[P[k]][i], v = q.b[V[k]][i], a = q.b[A[k]][i], T = 2 * h;
        v_eq(bodyArr(s, P[k])[i], p + v * T + a * T * T / 2, "exact");
        v_eq(bodyArr(s, V[k])[i], v + a * T, "exact");
    }
    s.destroy();
}
void c10_again() {
    SystemState s, t; Snap q; Rk4OdeSolver o;
    int n0 = v_choice("n0", 0, 2), st = v_choice("stages", 0, 4);
    bool end = v_choice("end", 0, 1);
    symState(s, q, "s", n0, v_choice("nc0", 0, 1));
    o.start(&s, v_real("d0"));
    for (int i = 0; i < st; ++i) {
        o.step(&s);
        for (int k = 0; k < n0; ++k) s.a_x[k] = s.a_y[k] = s.a_theta[k] = 7;
        o.solve(&s);
    }
    if (end) o.end();
    symState(t, q, "u", v_choice("n1", 0, 2), v_choice("nc1", 0, 1));
    rk(o, t, q, v_real("d1"), "k");
    s.destroy(); t.destroy();
}
// reactions of the step: stage-weighted mean
void c10_reactions() {
    Rk4OdeSolver o;
    static const int NC[6] = {0, 1, 2, 33, 70, 200};
    int nc = NC[v_choice("nc", 0, 5)], n = v_choice("n", 0, 1);
    static double r[5][3][400];
    for (int rep = 0; rep < 2; ++rep) {
        SystemState s; static SnapBig q;
        symState(s, q, rep ? "t" : "s", n, nc);
        o.start(&s, v_real("dt"));
        for (int st = 1; st <= 4; ++st) {
            bool done = o.step(&s);
            v_assert(done == (st == 4), "four-stages");
            for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) reactArr(s, k)[i] = r[st][k][i] = v_realn(nameOf(rep ? "w" : "v", st * 4 + k), i);
            o.solve(&s);
        }
        o.end();
        v_reach("mean");
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i)
            v_eq(reactArr(s, k)[i], (r[1][k][i] + 2 * r[2][k][i] + 2 * r[3][k][i] + r[4][k][i]) / 6, "mean");
        s.destroy();
    }
}
// tens of thousands of bodies: most of them at rest at the origin, every 197th and the last ones anywhere
void c10_huge() {
    const int n = 40000;
    SystemState s; Rk4OdeSolver o;
    s.resize(n, 1);
    static int at[300]; int m = 0;
    for (int i = 0; i < n; ++i) {
        bool w = i % 197 == 0 || i >= n - 3;
        if (w) at[m++] = i;
        for (int k = 0; k < 3; ++k) { bodyArr(s, P[k])[i] = w ? v_realn(nameOf("s", P[k]), i) : 0; bodyArr(s, V[k])[i] = w ? v_realn(nameOf("s", V[k]), i) : 0; bodyArr(s, A[k])[i] = 0; }
    }
    double h = v_real("dt");
    static double a[4][3][300];
    o.start(&s, h);
    for (int st = 0; st < 4; ++st) {
        v_assert(o.step(&s) == (st == 3), "four-stages");
        for (int j = 0; j < m; ++j) for (int k = 0; k < 3; ++k) bodyArr(s, A[k])[at[j]] = a[st][k][j] = v_realn(nameOf("k", st * 4 + k), at[j]);
        o.solve(&s);
    }
    o.end();
    for (int j = 0; j < m; ++j)
        for (int k = 0; k < 3; ++k) {
            double p = v_realn(nameOf("s", P[k]), at[j]), v = v_realn(nameOf("s", V[k]), at[j]);
            v_eq(bodyArr(s, V[k])[at[j]], v + h / 6 * (a[0][k][j] + 2 * a[1][k][j] + 2 * a[2][k][j] + a[3][k][j]), "update");
            v_eq(bodyArr(s, P[k])[at[j]], p + h * v + h * h / 6 * (a[0][k][j] + a[1][k][j] + a[2][k][j]), "update");
        }
    for (int i = 0; i < n; ++i) if (!(i % 197 == 0 || i >= n - 3)) for (int k = 0; k < 3; ++k) { v_eq(bodyArr(s, V[k])[i], 0, "update"); v_eq(bodyArr(s, P[k])[i], 0, "update"); }
    s.destroy();
}
}
