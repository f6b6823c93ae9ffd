// C06 unlimited Gauss-Seidel
#include "sys.h"
//@ bound 1 and 2 equations with a fully general J W J^T, 3 equations with general couplings, 4 to 8 equations with concrete couplings, 1 to 3 sweeps allowed, arbitrary start vector of matching, other or no length, arbitrary stop fraction; non-finite right hand sides and start values; solver objects used before on other sizes or on the same matrices with other contents; up to 70 equations with concrete couplings (chain, all-to-all, both signs on the diagonal), one sweep, one arbitrary right-hand entry or start value; one drifting equation for up to 1100 sweeps, stopped by the count or by the change
//@ entry c06_one need=sweep
//@ entry c06_two need=sweep
//@ entry c06_two_sweeps need=sweep
//@ entry c06_three need=sweep
//@ entry c06_start need=sweep
//@ entry c06_reuse need=sweep
//@ entry c06_nonfinite need=finite
//@ entry c06_exact need=sweep
//@ entry c06_big need=sweep
//@ entry c06_big_again need=sweep
//@ entry c06_many need=sweep,status
//@ entry c06_wide need=sweep
//@ entry c06_three_sweeps thorough need=sweep budget=500

static double mx(double a, double b) { return std::fmax(a, b); }
static double ab(double a) { return std::fabs(a); }
// reference: sweeps; returns status; k holds the iterate
static int refSweeps(Lin &L, double *k, int maxIt, double minDelta) {
    for (int it = 0; it < maxIt; ++it) {
        bool small = true;
        for (int i = 0; i < L.n; ++i) {
            double s = 0;
            for (int j = 0; j < L.n; ++j) if (j != i) s += L.A(i, j) * k[j];
            double x = (L.b[i] - s) / L.A(i, i);
            double d = ab(x - k[i]), lim = minDelta * mx(0.001, ab(k[i]));
            if (!(d < lim)) small = false;
            k[i] = x;
        }
        if (small) return 1;
    }
    return 0;
}
static void run(Lin &L, int its, double minDelta, int prevKind, int pre, int used = 0) {
    SparseMatrix<3> J; Matrix W, b, x, p;
    fillDense(L, J, W, b);
    GaussSeidelSleSolver g;
    g.m_maxIterations = 1;
    if (used) earlierSolve(g, 1 + used % 3, 1 + v_choice("enb", 0, 1), v_choice("elim", 0, 1));
    g.m_maxIterations = its;
    g.m_minDelta = minDelta;
    double k[8] = {0};
    usedMatrix(x, pre, 1, L.n);
    Matrix *prev = nullptr;
    if (prevKind == 1) { p.resize(1, L.n); for (int i = 0; i < L.n; ++i) { k[i] = v_realn("x0", i); p.set(0, i, k[i]); } prev = &p; }
    if (prevKind == 2) { p.initialize(1, L.n + 1, 4.0); prev = &p; }
    if (prevKind == 3) { x.resize(1, L.n); for (int i = 0; i < L.n; ++i) { k[i] = v_realn("x0", i); x.set(0, i, k[i]); } prev = &x; }
    bool ok = g.solve(J, W, b, prev, &x);
    int want = refSweeps(L, k, its, minDelta);
    v_assert(x.getWidth() == 1 && x.getHeight() == L.n, "result-shape");
    v_assert(ok == (want == 1), "status");
    for (int i = 0; i < L.n; ++i) v_eq(x.get(0, i), k[i], "sweep");
    unchanged(L, J, W, b);
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy();
}
static void diagNonzero(Lin &L) { for (int i = 0; i < L.n; ++i) v_assume(L.A(i, i) > 0 || L.A(i, i) < 0); }
static void mk(Lin &L, int n) {
    L.n = n; L.m = 3;
    for (int i = 0; i < n; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 1 : k < i ? v_realn("J", i * 8 + k) : 0; }
    for (int k = 0; k < 3; ++k) L.W[k] = k < n ? v_posn("W", k) : 1;
}
extern "C" {
void c06_one() {
    Lin L; L.n = 1; L.m = 6;
    L.b[0] = v_real("b");
    for (int k = 0; k < 6; ++k) { L.J[0][k] = k == 3 ? 1 : 0; L.W[k] = 1; }
    L.W[3] = v_real("W");
    diagNonzero(L);
    run(L, v_choice("its", 0, 1), 0.125, v_choice("prev", 0, 3), 0);
}
void c06_two() {
    Lin L; mk(L, 2);
    run(L, 1, v_real("delta"), 1, 0);
}
void c06_two_sweeps() {
    Lin L; mk(L, 2);
    L.W[0] = 1; L.W[1] = 2;
    run(L, 2, 0.1, 1, 0);
}
void c06_three() {
    Lin L; mk(L, 3);
    L.W[0] = 1; L.W[1] = 2; L.W[2] = 0.5;
    run(L, 1, 0.25, 1, 0);
}
void c06_three_sweeps() {
    Lin L; mk(L, 2);
    L.W[0] = 1; L.W[1] = 1;
    run(L, 3, 0.1, 0, 0);
}
static void big(int n, int kind, int its, int past) {
    BigLin L; bigSystem(L, n, kind);
    SparseMatrix<3> J; Matrix W, b, x, p;
    double k[10];
    // one arbitrary entry of b or of the start vector: the stop test splits on every unknown
    int at = v_choice("at", 0, 3);
    for (int i = 0; i < n; ++i) { if (i != (at == 0 ? 1 : at == 1 ? n - 2 : -1)) L.b[i] = i - 2.5; k[i] = i == (at == 2 ? n - 1 : at == 3 ? 2 : -1) ? v_real("x0") : 0.5 * i; }
    GaussSeidelSleSolver g;
    g.m_maxIterations = 1; g.m_minDelta = -1;
    bigPast(g, L, kind, past, J, W, b);
    fillBig(L, kind, J, W, b);
    p.resize(1, n);
    for (int i = 0; i < n; ++i) p.set(0, i, k[i]);
    g.m_maxIterations = its; g.m_minDelta = -1;
    bool ok = g.solve(J, W, b, &p, &x);
    v_assert(!ok, "status");
    for (int it = 0; it < its; ++it) for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j) if (j != i) s += L.A(i, j) * k[j];
        k[i] = (L.b[i] - s) / L.A(i, i);
    }
    for (int i = 0; i < n; ++i) v_eq(x.get(0, i), k[i], "sweep");
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy();
}
void c06_big() { int n = v_choice("n", 4, 8); big(n, v_choice("kind", 0, 1) * 2, n > 5 ? 1 : v_choice("its", 1, 2), 0); }
// the same matrices and the same solver, used before with other contents
void c06_big_again() { int past = v_choice("past", 1, 5), n = v_choice("n", 0, 2); big(n == 2 ? 7 : 3 + n, past % 2 * 2, 1, past); }
// many equations, diagonal entries of either sign
void c06_wide() {
    static const int N[3] = {5, 30, 70};
    int n = N[v_choice("n", 0, 2)], kind = v_choice("kind", 0, 2), at = v_choice("at", 0, 2); if (kind == 1) kind = 3;
    v_assume(n < 70 || at);
    Wide L(n, kind);
    double k[100];
    for (int i = 0; i < n; ++i) k[i] = i % 5 - 1.5;
    int row = at == 0 ? 1 : at == 1 ? n / 2 : n - 1;
    L.b[row] = v_real("b");
    if (at == 1) k[n - 2] = v_real("x0");
    SparseMatrix<3> J; Matrix W, b, x, p;
    GaussSeidelSleSolver g;
    L.fill(J, W, b);
    p.resize(1, n);
    for (int i = 0; i < n; ++i) p.set(0, i, k[i]);
    g.m_maxIterations = 1; g.m_minDelta = -1;
    bool ok = g.solve(J, W, b, &p, &x);
    v_assert(!ok, "status");
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j) if (j != i) { double a = L.A(i, j); if (a != 0) s += a * k[j]; }
        k[i] = (L.b[i] - s) / L.A(i, i);
        v_eq(x.get(0, i), k[i], "sweep");
    }
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy();
}
void c06_start() {
    Lin L; L.n = 2; L.m = 3;
    for (int i = 0; i < 2; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i ? 2 : 1; }
    for (int k = 0; k < 3; ++k) L.W[k] = 1 + k;
    run(L, 1, 0.1, v_choice("prev", 0, 3), v_choice("pre", 0, 4));
}
// a solver object that solved other equations before
void c06_reuse() {
    Lin L; mk(L, 2);
    L.W[0] = 1; L.W[1] = 2;
    run(L, 1, 0.1, v_choice("prev", 0, 3), v_choice("pre", 0, 1), v_choice("used", 1, 3));
}
// whatever the values: success comes only with finite results
void c06_nonfinite() {
    SparseMatrix<3> J; Matrix W, b, x, p;
    J.initialize(3, 2); W.initialize(1, 3, 1.0); b.resize(1, 2); p.resize(1, 2);
    double j0 = v_ext("j0"), j1 = v_real("j1"), b0 = v_ext("b0"), b1 = v_real("b1"), x0 = v_ext("x0"), x1 = v_real("x1");
    J.setBlock(0, 0, 0); J.setBlock(1, 0, 0);
    J.set(0, 0, 0, j0); J.set(0, 0, 1, 0); J.set(0, 0, 2, 0);
    J.set(1, 0, 0, j1); J.set(1, 0, 1, 1); J.set(1, 0, 2, 0);
    b.set(0, 0, b0); b.set(0, 1, b1); p.set(0, 0, x1); p.set(0, 1, x0);
    GaussSeidelSleSolver g;
    g.m_maxIterations = v_choice("its", 1, 2);
    bool ok = g.solve(J, W, b, &p, &x);
    v_reach("finite");
    if (ok) for (int i = 0; i < 2; ++i) v_assert(v_isfinite(x.get(0, i)), "finite");
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy();
}
// started at the solution: success after one sweep, unchanged
void c06_exact() {
    Lin L; mk(L, 2);
    double s[2] = {v_real("s0"), v_real("s1")};
    for (int i = 0; i < 2; ++i) L.b[i] = L.A(i, 0) * s[0] + L.A(i, 1) * s[1];
    SparseMatrix<3> J; Matrix W, b, x, p;
    fillDense(L, J, W, b);
    p.resize(1, 2); p.set(0, 0, s[0]); p.set(0, 1, s[1]);
    GaussSeidelSleSolver g;
    bool ok = g.solve(J, W, b, &p, &x);
    v_assert(ok, "exact-success");
    for (int i = 0; i < 2; ++i) v_eq(x.get(0, i), s[i], "sweep");
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy();
}
// hundreds of sweeps
void c06_many() {
    Drift t;
    GaussSeidelSleSolver g;
    int its = ITS[v_choice("its", 0, 5)]; bool endless = v_choice("endless", 0, 1);
    g.m_maxIterations = its; g.m_minDelta = endless ? -1 : Drift::fraction();
    t.verify(g.solve(t.J, t.W, t.b, &t.p, &t.x), its, endless);
}
}
