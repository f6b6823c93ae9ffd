// C08 conjugate gradient
#include "sys.h"
//@ bound 1 and 2 equations with general positive definite J W J^T (triangular J, positive W) and arbitrary b and start vector, 3 equations with concrete couplings, 4 to 6 with a right side of one arbitrary direction factor; indefinite, singular and non-finite data for the success criterion; iteration limits 0..3; arbitrary non-negative error settings; up to 70 equations with concrete couplings, started off the solution by an arbitrary amount in one row
//@ entry c08_small1 need=residual
//@ entry c08_small2 branch-ms=200 need=residual
//@ entry c08_pd1 need=converges
//@ entry c08_pd2 need=converges
//@ entry c08_pd2_cold need=converges
//@ entry c08_pd3 branch-ms=200 need=converges
//@ entry c08_big need=residual
//@ entry c08_big_again need=residual
//@ entry c08_rows need=row
//@ entry c08_wide need=row
//@ entry c08_guess need=guess
//@ entry c08_singular need=residual
//@ entry c08_nonfinite need=finite
//@ entry c08_reuse branch-ms=200 need=same
//@ entry c08_settings need=settings
//@ entry c08_empty

static double worst(double b, double maxE, double minE) { return std::fmax(std::fabs(maxE * b), minE); }
static void residual(Lin &L, Matrix &x, double maxE, double minE) {
    v_assert(x.getWidth() == 1 && x.getHeight() == L.n, "result-shape");
    for (int i = 0; i < L.n; ++i) {
        double s = L.b[i];
        for (int j = 0; j < L.n; ++j) s -= L.A(i, j) * x.get(0, j);
        v_le(std::fabs(s), worst(L.b[i], maxE, minE), "residual");
    }
}
static bool solve(ConjugateGradientSleSolver &g, Lin &L, int prevKind, Matrix &x) {
    SparseMatrix<3> J; Matrix W, b, p;
    fillDense(L, J, W, b);
    Matrix *prev = nullptr;
    double x0[4];
    if (prevKind == 1) { p.resize(1, L.n); for (int i = 0; i < L.n; ++i) { x0[i] = prevKind == 1 && L.n == 2 && i == 1 ? 0.25 : v_realn("x0", i); p.set(0, i, x0[i]); } prev = &p; }
    if (prevKind == 2) { p.initialize(1, L.n + 1, 4.0); prev = &p; }
    if (prevKind == 3) { x.resize(1, L.n); for (int i = 0; i < L.n; ++i) x.set(0, i, v_realn("x0", i)); prev = &x; }
    bool ok = g.solve(J, W, b, prev, &x);
    if (prevKind == 1) for (int i = 0; i < L.n; ++i) v_eq(p.get(0, i), x0[i], "guess-kept");
    unchanged(L, J, W, b);
    J.destroy(); W.destroy(); b.destroy(); p.destroy();
    return ok;
}
static void mk(Lin &L, int n, bool pos) {
    L.n = n; L.m = 3;
    for (int i = 0; i < n; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 1 : k < i ? v_realn("J", i * 8 + k) : 0; }
    for (int k = 0; k < 3; ++k) { L.W[k] = k < n ? v_realn("W", k) : 1; if (pos && k < n) v_assume(L.W[k] > 0); }
}
extern "C" {
void c08_small1() {
    Lin L; mk(L, 1, false);
    ConjugateGradientSleSolver g;
    double e = v_real("maxE"), m = v_real("minE");
    v_assume(e >= 0); v_assume(m >= 0);
    g.setMaxError(e); g.setMinError(m); g.setMaxIterations(v_choice("its", 0, 2));
    Matrix x;
    usedMatrix(x, v_choice("pre", 0, 2), 1, 1);
    if (solve(g, L, v_choice("prev", 0, 3), x)) residual(L, x, e, m);
    x.destroy();
}
void c08_small2() {
    Lin L; mk(L, 2, false);
    L.W[0] = 1; L.b[1] = 2;
    ConjugateGradientSleSolver g;
    g.setMaxIterations(1);
    Matrix x;
    if (solve(g, L, 0, x)) residual(L, x, 1e-2, 1e-3);
    x.destroy();
}
void c08_pd1() {
    Lin L; mk(L, 1, true);
    ConjugateGradientSleSolver g;
    g.setMaxIterations(1);
    Matrix x;
    bool ok = solve(g, L, v_choice("prev", 0, 3), x);
    v_assert(ok, "converges");
    residual(L, x, 1e-2, 1e-3);
    x.destroy();
}
static void pd2(int prev) {
    Lin L; mk(L, 2, true);
    L.W[0] = 1;
    ConjugateGradientSleSolver g;
    g.setMaxIterations(2);
    Matrix x;
    bool ok = solve(g, L, prev, x);
    v_assert(ok, "converges");
    residual(L, x, 1e-2, 1e-3);
    x.destroy();
}
void c08_pd2() {
    Lin L; L.n = 2; L.m = 3;
    for (int i = 0; i < 2; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 1 : k < i ? 0.5 : 0; }
    for (int k = 0; k < 3; ++k) L.W[k] = 1 + k;
    L.b[0] = 3; L.b[1] = 1;
    ConjugateGradientSleSolver g;
    g.setMaxIterations(2);
    Matrix x;
    bool ok = solve(g, L, 1, x);
    v_assert(ok, "converges");
    residual(L, x, 1e-2, 1e-3);
    x.destroy();
}
void c08_pd2_cold() { pd2(0); }
void c08_pd3() {
    Lin L; L.n = 3; L.m = 3;
    for (int i = 0; i < 3; ++i) { L.b[i] = i == 0 ? v_real("b") : i == 1 ? 1 : -2; for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 1 : k < i ? 0.5 : 0; }
    for (int k = 0; k < 3; ++k) L.W[k] = 1 + k;
    ConjugateGradientSleSolver g;
    g.setMaxIterations(3);
    Matrix x;
    bool ok = solve(g, L, 0, x);
    v_assert(ok, "converges");
    residual(L, x, 1e-2, 1e-3);
    x.destroy();
}
static void big(int n, int kind, int past) {
    BigLin L; bigSystem(L, n, kind);
    double f = v_real("f");
    v_assume(f >= 1); v_assume(f <= 1000);
    for (int i = 0; i < n; ++i) L.b[i] = f * (i % 2 ? 1 + i : -2);
    SparseMatrix<3> J; Matrix W, b, x;
    ConjugateGradientSleSolver g;
    g.setMaxIterations(n);
    bigPast(g, L, kind, past, J, W, b);
    fillBig(L, kind, J, W, b);
    bool ok = g.solve(J, W, b, nullptr, &x);
    v_assert(ok, "converges");
    for (int i = 0; i < n; ++i) {
        double s = L.b[i];
        for (int j = 0; j < n; ++j) s -= L.A(i, j) * x.get(0, j);
        v_le(std::fabs(s), worst(L.b[i], 1e-2, 1e-3), "residual");
    }
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
}
void c08_big() { int n = v_choice("n", 4, 6); big(n, v_choice("kind", 0, 1) * 2, 0); }
// the same matrices and the same solver, used before with other contents
void c08_big_again() { int past = v_choice("past", 1, 5), n = v_choice("n", 0, 1); big(n ? 5 : 3, past % 2 * 2, past); }
// large systems: the bound holds in every row, also where the right side is small or zero
void c08_rows() {
    int n = v_choice("n", 5, 9), at = v_choice("at", 0, 3), kind = v_choice("kind", 0, 1) * 2;
    BigLin L; bigSystem(L, n, kind);
    double f = v_real("f"), e = v_choice("e", 0, 1) ? 0.5 : 0.0, m = 1e-3;
    v_assume(f >= -1); v_assume(f <= 1);
    // a start vector that misses one row by an arbitrary amount
    double s[10];
    for (int i = 0; i < n; ++i) s[i] = i % 3 - 1;
    int row = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : 4;
    for (int i = 0; i < n; ++i) {
        double v = 0;
        for (int j = 0; j < n; ++j) v += L.A(i, j) * s[j];
        L.b[i] = i == row ? v + f : v;
    }
    SparseMatrix<3> J; Matrix W, b, p, x;
    fillBig(L, kind, J, W, b);
    p.resize(1, n);
    for (int i = 0; i < n; ++i) p.set(0, i, s[i]);
    ConjugateGradientSleSolver g;
    g.setMaxIterations(0); g.setMaxError(e); g.setMinError(m);
    bool ok = g.solve(J, W, b, &p, &x);
    double lim = worst(L.b[row], e, m);
    v_assert(ok == (std::fabs(f) <= lim), "row");
    if (ok) for (int i = 0; i < n; ++i) v_eq(x.get(0, i), s[i], "row");
    J.destroy(); W.destroy(); b.destroy(); p.destroy(); x.destroy();
}
// an initial guess within the error bounds is returned as it is
void c08_guess() {
    Lin L; mk(L, 2, false);
    double e = v_real("maxE"), m = v_real("minE");
    v_assume(e >= 0); v_assume(m >= 0);
    ConjugateGradientSleSolver g;
    g.setMaxError(e); g.setMinError(m); g.setMaxIterations(v_choice("its", 0, 1));
    SparseMatrix<3> J; Matrix W, b, p, x;
    fillDense(L, J, W, b);
    double s[2] = {v_real("s0"), v_real("s1")};
    for (int i = 0; i < 2; ++i) {
        double r = L.b[i] - L.A(i, 0) * s[0] - L.A(i, 1) * s[1];
        v_assume(std::fabs(r) <= worst(L.b[i], e, m));
    }
    p.resize(1, 2); p.set(0, 0, s[0]); p.set(0, 1, s[1]);
    bool ok = g.solve(J, W, b, &p, &x);
    v_assert(ok, "guess");
    for (int i = 0; i < 2; ++i) v_eq(x.get(0, i), s[i], "guess");
    J.destroy(); W.destroy(); b.destroy(); p.destroy(); x.destroy();
}
// dependent rows: success only if the residual is small all the same
void c08_singular() {
    Lin L; L.n = 2; L.m = 3;
    double f = v_real("f");
    for (int k = 0; k < 3; ++k) { L.J[0][k] = k + 1; L.J[1][k] = f * (k + 1); L.W[k] = 1; }
    L.b[0] = v_real("b0"); L.b[1] = v_real("b1");
    ConjugateGradientSleSolver g;
    g.setMaxIterations(2);
    Matrix x;
    if (solve(g, L, 0, x)) residual(L, x, 1e-2, 1e-3);
    x.destroy();
}
void c08_nonfinite() {
    SparseMatrix<3> J; Matrix W, b, x, p;
    J.initialize(3, 2); W.initialize(1, 3, 1.0); b.resize(1, 2); p.resize(1, 2);
    double j0 = v_ext("j0"), b0 = v_ext("b0"), x0 = v_ext("x0"), b1 = v_real("b1"), w0 = v_real("w0");
    int how = v_choice("how", 0, 2);
    if (how != 0) v_assume(v_isfinite(j0));
    if (how != 1) v_assume(v_isfinite(b0));
    if (how != 2) v_assume(v_isfinite(x0));
    J.setBlock(0, 0, 0); J.setBlock(1, 0, 0);
    J.set(0, 0, 0, j0); J.set(0, 0, 1, 0); J.set(0, 0, 2, 0);
    J.set(1, 0, 0, 0); J.set(1, 0, 1, 1); J.set(1, 0, 2, 0);
    W.set(0, 0, w0);
    b.set(0, 0, b0); b.set(0, 1, b1); p.set(0, 0, x0); p.set(0, 1, 0);
    ConjugateGradientSleSolver g;
    g.setMaxIterations(v_choice("its", 0, 1));
    bool ok = g.solve(J, W, b, &p, &x);
    v_reach("finite");
    if (ok) {
        for (int i = 0; i < 2; ++i) v_assert(v_isfinite(x.get(0, i)), "finite");
        double r = b0 - w0 * j0 * j0 * x.get(0, 0);
        v_le(std::fabs(r), worst(b0, 1e-2, 1e-3), "residual");
    }
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy();
}
void c08_reuse() {
    ConjugateGradientSleSolver g, h;
    int its = v_choice("its", 0, 2), prev = v_choice("prev", 0, 1) * 2, n0 = v_choice("n0", 0, 3);
    v_assume(its == 2 || n0 == 2); v_assume(its != 2 || prev == 0);
    Matrix x, y;
    if (n0) {
        g.setMaxIterations(2);
        Lin P; P.n = n0; P.m = 6;
        for (int i = 0; i < n0; ++i) { P.b[i] = 3.0 - i; for (int k = 0; k < 6; ++k) P.J[i][k] = k == i ? 2 : k == i + 1 ? 1 : 0; }
        for (int k = 0; k < 6; ++k) P.W[k] = 1 + k;
        solve(g, P, 0, x);
    }
    g.setMaxIterations(its); h.setMaxIterations(its);
    Lin L; L.n = 2; L.m = 3;
    for (int i = 0; i < 2; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 1 : 0.5; }
    for (int k = 0; k < 3; ++k) L.W[k] = 1;
    bool o1 = solve(g, L, prev, x), o2 = solve(h, L, prev, y);
    v_assert(o1 == o2, "same");
    if (o1) for (int i = 0; i < 2; ++i) v_eq(x.get(0, i), y.get(0, i), "same");
    x.destroy(); y.destroy();
}
// many equations: started at the solution, or off it by an arbitrary amount in one row, with an arbitrary permitted error
void c08_wide() {
    static const int N[3] = {16, 40, 70};
    int n = N[v_choice("n", 0, 2)], kind = v_choice("kind", 0, 1) * 2, at = v_choice("at", 0, 3);
    Wide L(n, kind);
    double s[100], f = v_real("f"), m = v_real("m");
    v_assume(m >= 0);
    for (int i = 0; i < n; ++i) s[i] = i % 4 - 1;
    int row = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : n / 3;
    for (int i = 0; i < n; ++i) L.b[i] = L.row(i, s) + (i == row ? f : 0);
    SparseMatrix<3> J; Matrix W, b, p, x;
    ConjugateGradientSleSolver g;
    if (v_choice("before", 0, 1)) { Wide P(12, 0); P.fill(J, W, b); g.setMaxIterations(1); g.solve(J, W, b, nullptr, &x); }
    L.fill(J, W, b);
    p.resize(1, n);
    for (int i = 0; i < n; ++i) p.set(0, i, s[i]);
    g.setMaxIterations(0); g.setMaxError(0); g.setMinError(m);
    bool ok = g.solve(J, W, b, &p, &x);
    v_assert(ok == (std::fabs(f) <= m), "row");
    if (ok) for (int i = 0; i < n; ++i) v_eq(x.get(0, i), s[i], "row");
    J.destroy(); W.destroy(); b.destroy(); p.destroy(); x.destroy();
}
void c08_settings() {
    ConjugateGradientSleSolver g;
    double e = v_real("e"), m = v_real("m");
    int k = v_choice("k", 0, 5);
    g.setMaxError(e); g.setMinError(m); g.setMaxIterations(k);
    v_eq(g.getMaxError(), e, "settings"); v_eq(g.getMinError(), m, "settings");
    v_assert(g.getMaxIterations() == k, "settings");
    v_assert(!g.supportsLimits(), "settings");
}
void c08_empty() {
    SparseMatrix<3> J; Matrix W, b, x;
    J.initialize(3, 0); W.initialize(1, 3, 1.0); b.initialize(1, 0);
    usedMatrix(x, v_choice("pre", 0, 4), 1, 2);
    ConjugateGradientSleSolver g;
    Matrix start;  // as a system hands it over that never had a constraint
    v_assert(g.solve(J, W, b, v_choice("start", 0, 1) ? &start : nullptr, &x), "empty");
    v_assert(x.getHeight() == 0, "empty");
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
}
}
