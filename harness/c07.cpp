// C07 limited Gauss-Seidel
#include "sys.h"
//@ bound solver and matrices fresh or used before (other contents, limits, sizes); 4 to 8 equations with concrete couplings (one sweep, two arbitrary limits and b entries); 1 and 2 equations (3 in the limits check), 1 and 2 sweeps, every double class (finite, infinities, NaN) for J, b and start values in the limits check, arbitrary ordered limits; arbitrary finite data in the sweep check; up to 70 equations with concrete couplings (chain, all-to-all, both signs on the diagonal), one sweep, one row of arbitrary limits; one drifting equation for up to 1100 sweeps
//@ entry c07_limits1 need=limits
//@ entry c07_limits2 need=limits
//@ entry c07_limits2_again need=limits
//@ entry c07_limits3 need=limits
//@ entry c07_sweep1 need=sweep
//@ entry c07_sweep2 need=sweep
//@ entry c07_sweep2x need=sweep
//@ entry c07_start need=sweep
//@ entry c07_reuse need=sweep
//@ entry c07_big need=sweep
//@ entry c07_big_again need=sweep
//@ entry c07_many need=sweep,status
//@ entry c07_wide need=sweep
//@ entry c07_stop need=stop
//@ entry c07_free need=sweep
//@ entry c07_sweep3 thorough need=sweep

static double mx(double a, double b) { return std::fmax(a, b); }
static double ab(double a) { return std::fabs(a); }
static void mk(Lin &L, int n) {
    L.n = n; L.m = 3;
    for (int i = 0; i < n; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 1 : k < i ? v_realn("J", i * 8 + k) : 0; }
    for (int k = 0; k < 3; ++k) L.W[k] = k < n ? v_posn("W", k) : 1;
}
static void limits(int n, bool ext, int maxIts = 2) {
    SparseMatrix<3> J; Matrix W, b, l, x, p;
    J.initialize(3, n); W.initialize(1, 3, 1.0); b.resize(1, n); p.resize(1, n); l.resize(2, n);
    for (int i = 0; i < n; ++i) {
        J.setBlock(i, 0, 0);
        for (int k = 0; k < 3; ++k) J.set(i, 0, k, k == i ? 1.0 : 0.0);
        b.set(0, i, i == 0 ? v_ext("b") : v_realn("b", i));
        p.set(0, i, i == n - 1 ? v_ext("x0") : v_realn("x0", i));
        double lo = v_realn("lo", i), hi = v_realn("hi", i);
        v_assume(lo <= hi);
        l.set(0, i, lo); l.set(1, i, hi);
    }
    J.set(0, 0, 1 % n == 0 ? 2 : 1, ext ? v_ext("j") : v_real("j"));
    if (n == 1) J.set(0, 0, 0, v_ext("j0"));
    GaussSeidelSleSolver g;
    g.m_maxIterations = maxIts == 1 ? 1 : v_choice("its", 1, maxIts);
    int how = v_choice("prev", 0, 1);
    if (how == 0) { x.set(&p); }
    bool ok = g.solveWithLimits(J, W, b, l, &x, how ? &p : nullptr);
    (void)ok;
    v_assert(x.getWidth() == 1 && x.getHeight() == n, "result-shape");
    for (int i = 0; i < n; ++i) { v_le(l.get(0, i), x.get(0, i), "limits"); v_le(x.get(0, i), l.get(1, i), "limits"); }
    J.destroy(); W.destroy(); b.destroy(); l.destroy(); x.destroy(); p.destroy();
}
// the limits after the last of several sweeps
static void limitsAgain() {
    SparseMatrix<3> J; Matrix W, b, l, x, p;
    J.initialize(3, 2); W.initialize(1, 3, 1.0); b.resize(1, 2); p.resize(1, 2); l.resize(2, 2);
    for (int i = 0; i < 2; ++i) {
        J.setBlock(i, 0, 0);
        for (int k = 0; k < 3; ++k) J.set(i, 0, k, k == i ? 1.0 : k < i ? 0.5 : 0.0);
        b.set(0, i, v_realn("b", i));
        p.set(0, i, 0.25);
        double lo = v_realn("lo", i), hi = i ? 1.0 : v_realn("hi", i);
        v_assume(lo <= hi);
        l.set(0, i, lo); l.set(1, i, hi);
    }
    GaussSeidelSleSolver g;
    g.m_maxIterations = 2;
    g.solveWithLimits(J, W, b, l, &x, &p);
    for (int i = 0; i < 2; ++i) { v_le(l.get(0, i), x.get(0, i), "limits"); v_le(x.get(0, i), l.get(1, i), "limits"); }
    J.destroy(); W.destroy(); b.destroy(); l.destroy(); x.destroy(); p.destroy();
}
static void sweep(Lin &L, int its, double delta, int prevKind, int pre, int used = 0) {
    SparseMatrix<3> J; Matrix W, b, l, x, p;
    fillDense(L, J, W, b);
    l.resize(2, L.n);
    double lo[4], hi[4], k[4] = {0};
    for (int i = 0; i < L.n; ++i) { lo[i] = v_realn("lo", i); hi[i] = v_realn("hi", i); v_assume(lo[i] <= hi[i]); l.set(0, i, lo[i]); l.set(1, i, hi[i]); }
    GaussSeidelSleSolver g;
    g.m_maxIterations = 1;
    if (used) earlierSolve(g, 1 + used % 3, 1 + v_choice("enb", 0, 1), v_choice("elim", 0, 1));
    g.m_maxIterations = its; g.m_minDelta = delta;
    Matrix *prev = nullptr;
    usedMatrix(x, pre, 1, L.n);
    if (x.getHeight() == L.n) for (int i = 0; i < L.n; ++i) k[i] = x.get(0, i);
    if (prevKind == 1) { p.resize(1, L.n); for (int i = 0; i < L.n; ++i) { k[i] = v_realn("x0", i); p.set(0, i, k[i]); } prev = &p; }
    if (prevKind == 2) { p.initialize(1, L.n + 1, 4.0); prev = &p; }
    if (prevKind == 3) { x.resize(1, L.n); for (int i = 0; i < L.n; ++i) { k[i] = v_realn("x0", i); x.set(0, i, k[i]); } prev = &x; }
    bool ok = g.solveWithLimits(J, W, b, l, &x, prev), want = false;
    for (int it = 0; it < its && !want; ++it) {
        want = true;
        for (int i = 0; i < L.n; ++i) {
            double s = 0;
            for (int j = 0; j < L.n; ++j) if (j != i) s += L.A(i, j) * k[j];
            double y = (L.b[i] - s) / L.A(i, i);
            y = std::fmax(lo[i], std::fmin(hi[i], y));
            double d = ab(y - k[i]), m = delta * mx(0.001, ab(k[i]));
            if (!(d < m)) want = false;
            k[i] = y;
        }
    }
    v_assert(ok == want, "status");
    for (int i = 0; i < L.n; ++i) { v_eq(x.get(0, i), k[i], "sweep"); v_eq(l.get(0, i), lo[i], "limits-unchanged"); v_eq(l.get(1, i), hi[i], "limits-unchanged"); }
    unchanged(L, J, W, b);
    J.destroy(); W.destroy(); b.destroy(); l.destroy(); x.destroy(); p.destroy();
}
extern "C" {
void c07_limits1() { limits(1, true); }
void c07_limits2() { limits(2, true, 1); }
void c07_limits2_again() { limitsAgain(); }
void c07_limits3() { limits(3, false, 1); }
void c07_sweep1() {
    Lin L; L.n = 1; L.m = 6;
    L.b[0] = v_real("b");
    for (int k = 0; k < 6; ++k) { L.J[0][k] = k == 3 ? 1 : 0; L.W[k] = 1; }
    L.W[3] = v_real("W");
    v_assume(L.W[3] > 0 || L.W[3] < 0);
    sweep(L, 1, 0.125, v_choice("prev", 0, 3), 0);
}
void c07_sweep2() { Lin L; mk(L, 2); sweep(L, 1, 0.1, 1, 0); }
void c07_sweep2x() {
    Lin L; L.n = 2; L.m = 3;
    for (int i = 0; i < 2; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 1 : k < i ? 0.5 : 0; }
    for (int k = 0; k < 3; ++k) L.W[k] = 1;
    sweep(L, 2, 0.1, 3, 0);
}
void c07_start() {
    Lin L; L.n = 2; L.m = 3;
    for (int i = 0; i < 2; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 2 : 1; }
    for (int k = 0; k < 3; ++k) L.W[k] = 1 + k;
    sweep(L, 1, 0.1, v_choice("prev", 0, 3), v_choice("pre", 0, 3));
}
// a solver object that solved other equations before
void c07_reuse() {
    Lin L; L.n = 2; L.m = 3;
    for (int i = 0; i < 2; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 1 : k < i ? v_real("J") : 0; }
    for (int k = 0; k < 3; ++k) L.W[k] = 1 + k;
    sweep(L, 1, 0.1, v_choice("prev", 0, 3), v_choice("pre", 0, 1), v_choice("used", 1, 3));
}
static void big(int n, int kind, int at, int past) {
    BigLin L; bigSystem(L, n, kind);
    SparseMatrix<3> J; Matrix W, b, x, l, p;
    double k[10], lo[10], hi[10];
    l.resize(2, n); p.resize(1, n);
    for (int i = 0; i < n; ++i) {
        if (i != at) L.b[i] = i - 2.5;
        k[i] = 0.25 * i; p.set(0, i, k[i]);
        lo[i] = i == (at + 2) % n ? v_real("lo") : -0.3; hi[i] = i == at ? v_real("hi") : 0.5;
        v_assume(lo[i] <= hi[i]);
        l.set(0, i, lo[i]); l.set(1, i, hi[i]);
    }
    GaussSeidelSleSolver g;
    g.m_maxIterations = 1; g.m_minDelta = -1;
    if (past == 6) {
        // the same system with other limits
        Matrix l0, x0;
        l0.resize(2, n);
        for (int i = 0; i < n; ++i) { l0.set(0, i, -9.0 - i); l0.set(1, i, i); }
        fillBig(L, kind, J, W, b);
        for (int i = 0; i < n; ++i) b.set(0, i, 1.0 + i);
        g.solveWithLimits(J, W, b, l0, &x0, nullptr);
        l0.destroy(); x0.destroy();
    }
    else bigPast(g, L, kind, past, J, W, b);
    fillBig(L, kind, J, W, b);
    bool ok = g.solveWithLimits(J, W, b, l, &x, &p);
    v_assert(!ok, "status");
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j) if (j != i) s += L.A(i, j) * k[j];
        k[i] = mx(lo[i], std::fmin(hi[i], (L.b[i] - s) / L.A(i, i)));
    }
    for (int i = 0; i < n; ++i) v_eq(x.get(0, i), k[i], "sweep");
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); l.destroy(); p.destroy();
}
void c07_big() {
    int n = v_choice("n", 4, 8), kind = v_choice("kind", 0, 1) * 2, at = v_choice("at", 0, 7);
    if (at >= n) v_assume(false);
    big(n, kind, at, 0);
}
// many limited equations
void c07_wide() {
    static const int N[3] = {12, 30, 70};
    int n = N[v_choice("n", 0, 2)], kind = v_choice("kind", 0, 2), at = v_choice("at", 0, 2); if (kind == 1) kind = 3;
    v_assume(n < 70 || at);
    Wide L(n, kind);
    SparseMatrix<3> J; Matrix W, b, x, p, l;
    double k[100], lo[100], hi[100];
    int row = at == 0 ? 1 : at == 1 ? n / 2 : n - 1;
    l.resize(2, n); p.resize(1, n);
    for (int i = 0; i < n; ++i) {
        k[i] = i % 5 - 1.5; p.set(0, i, k[i]);
        lo[i] = -0.5 - i % 3; hi[i] = i % 4 * 0.25;
        if (i == row) { lo[i] = v_real("lo"); hi[i] = v_real("hi"); v_assume(lo[i] <= hi[i]); }
        l.set(0, i, lo[i]); l.set(1, i, hi[i]);
    }
    GaussSeidelSleSolver g;
    L.fill(J, W, b);
    g.m_maxIterations = 1; g.m_minDelta = -1;
    bool ok = g.solveWithLimits(J, W, b, l, &x, &p);
    v_assert(!ok, "status");
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j) if (j != i) { double a = L.A(i, j); if (a != 0) s += a * k[j]; }
        k[i] = mx(lo[i], std::fmin(hi[i], (L.b[i] - s) / L.A(i, i)));
        v_eq(x.get(0, i), k[i], "sweep");
        v_le(lo[i], x.get(0, i), "limits"); v_le(x.get(0, i), hi[i], "limits");
    }
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy(); l.destroy();
}
// the same matrices and the same solver, used before with other contents or limits
void c07_big_again() { int past = v_choice("past", 1, 6), n = v_choice("n", 0, 1); big(n ? 6 : 3, past % 2 * 2, past % 3, past); }
// success really means a small last change; data of any class
void c07_stop() {
    SparseMatrix<3> J; Matrix W, b, l, x;
    J.initialize(3, 1); W.initialize(1, 3, 1.0); b.resize(1, 1); x.resize(1, 1); l.resize(2, 1);
    J.setBlock(0, 0, 0); J.set(0, 0, 0, v_ext("j")); J.set(0, 0, 1, 0); J.set(0, 0, 2, 0);
    double x0 = v_ext("x0"), lo = v_real("lo"), hi = v_real("hi");
    v_assume(lo <= hi);
    b.set(0, 0, v_ext("b")); x.set(0, 0, x0); l.set(0, 0, lo); l.set(1, 0, hi);
    GaussSeidelSleSolver g;
    g.m_maxIterations = 1;
    bool ok = g.solveWithLimits(J, W, b, l, &x, nullptr);
    v_reach("stop");
    if (ok) {
        v_assert(v_isfinite(x0), "stop-finite");
        v_lt(ab(x.get(0, 0) - x0), 0.1 * mx(0.001, ab(x0)), "stop");
    }
    J.destroy(); W.destroy(); b.destroy(); l.destroy(); x.destroy();
}
// limits so wide they never act: the plain sweep
void c07_free() {
    SparseMatrix<3> J; Matrix W, b, l, x, y;
    Lin L; mk(L, 2);
    fillDense(L, J, W, b);
    l.resize(2, 2);
    for (int i = 0; i < 2; ++i) { l.set(0, i, -DBL_MAX); l.set(1, i, DBL_MAX); v_assume(L.b[i] < 1e6 && L.b[i] > -1e6); }
    double x0[2] = {v_real("x0"), v_real("x1")};
    x.resize(1, 2); x.set(0, 0, x0[0]); x.set(0, 1, x0[1]);
    for (int i = 0; i < 2; ++i) { v_assume(x0[i] < 1e6 && x0[i] > -1e6); v_assume(L.W[i] < 1e6 && L.W[i] > 1e-6); }
    v_assume(L.J[1][0] < 1e6 && L.J[1][0] > -1e6);
    GaussSeidelSleSolver g;
    g.m_maxIterations = 1;
    g.solveWithLimits(J, W, b, l, &x, nullptr);
    double a = (L.b[0] - L.A(0, 1) * x0[1]) / L.A(0, 0);
    v_eq(x.get(0, 0), a, "sweep");
    J.destroy(); W.destroy(); b.destroy(); l.destroy(); x.destroy(); y.destroy();
}
void c07_sweep3() {
    Lin L; mk(L, 3);
    L.W[0] = 1; L.W[1] = 2; L.W[2] = 0.5;
    sweep(L, 1, 0.25, 1, 0);
}
// hundreds of sweeps
void c07_many() {
    Drift t;
    GaussSeidelSleSolver g;
    int its = ITS[v_choice("its", 0, 5)]; bool endless = v_choice("endless", 0, 1);
    g.m_maxIterations = its; g.m_minDelta = endless ? -1 : Drift::fraction();
    t.verify(g.solveWithLimits(t.J, t.W, t.b, t.l, &t.x, &t.p), its, endless);
}
}
