// C05 Gaussian elimination
#include "sys.h"
//@ bound systems of 0..3 equations (thorough: 4) with J W J^T fully general: arbitrary J for n <= 2 over two bodies, arbitrary symmetric matrix via J rows for n = 3 (arbitrary, singular and indefinite W included), arbitrary b; every pivoting order; 4 to 9 equations with concrete couplings and arbitrary b; infinities and NaN in b and J of two equations; earlier solve of another or the same size with the same object; result and initial guess of any size; 20, 33 and 66 equations with concrete couplings (chain, all-to-all, zero diagonal with the pivot at the far end) and three arbitrary right-hand entries; one arbitrary row among two fixed ones for n = 3
//@ entry c05_n1 need=solution
//@ entry c05_n2 need=solution branch-ms=200
//@ entry c05_n3 need=solution branch-ms=300
//@ entry c05_n3_pd need=solution
//@ entry c05_n3_band need=solution
//@ entry c05_zero need=empty
//@ entry c05_singular2 need=singular
//@ entry c05_singular3 need=singular branch-ms=150
//@ entry c05_reuse need=solution
//@ entry c05_perm4 need=solution
//@ entry c05_big need=solution
//@ entry c05_big_again need=solution
//@ entry c05_wide need=solution
//@ entry c05_nonfinite need=finite
//@ entry c05_n3_row need=solution
//@ entry c05_n4_band thorough budget=600

static void solveCheck(GaussianEliminationSleSolver &g, Lin &L, int pre, int guess, bool mustSucceed) {
    SparseMatrix<3> J;
    Matrix W, b, x, p;
    fillDense(L, J, W, b);
    usedMatrix(x, pre, 1, L.n);
    // initial guess: none, a number, anything, anything in the matrix the result goes to
    if (guess == 1) p.initialize(1, L.n, 3.25);
    if (guess == 2) { p.resize(1, L.n); for (int i = 0; i < L.n; ++i) p.set(0, i, v_realn("x0", i)); }
    if (guess == 3) { x.resize(1, L.n); for (int i = 0; i < L.n; ++i) x.set(0, i, v_realn("x0", i)); }
    bool ok = g.solve(J, W, b, guess == 3 ? &x : guess ? &p : nullptr, &x);
    if (mustSucceed) v_assert(ok, "succeeds");
    if (ok) {
        v_assert(x.getWidth() == 1 && x.getHeight() == L.n, "result-shape");
        for (int i = 0; i < L.n; ++i) {
            double s = 0;
            for (int j = 0; j < L.n; ++j) s += L.A(i, j) * x.get(0, j);
            v_eq(s, L.b[i], "solution");
        }
    }
    unchanged(L, J, W, b);
    if (guess == 1) for (int i = 0; i < L.n; ++i) v_eq(p.get(0, i), 3.25, "guess-unchanged");
    if (guess == 2) for (int i = 0; i < L.n; ++i) v_eq(p.get(0, i), v_realn("x0", i), "guess-unchanged");
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy();
}
static void general(Lin &L, int n, int nb) {
    L.n = n; L.m = 3 * nb;
    for (int i = 0; i < n; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < L.m; ++k) L.J[i][k] = v_realn("J", i * 16 + k); }
    for (int k = 0; k < L.m; ++k) L.W[k] = v_realn("W", k);
}
// A = L D L^T with a unit-free triangular J: every symmetric matrix with nonsingular leading part
static void tri(Lin &L, int n) {
    L.n = n; L.m = n > 3 ? 6 : 3;
    for (int i = 0; i < n; ++i) {
        L.b[i] = v_realn("b", i);
        for (int k = 0; k < L.m; ++k) L.J[i][k] = k <= i && k < n ? v_realn("J", i * 16 + k) : 0;
    }
    for (int k = 0; k < L.m; ++k) L.W[k] = k < n ? v_realn("W", k) : 1;
}
extern "C" {
void c05_n1() {
    v_allow_abort(1);
    Lin L; general(L, 1, 2);
    GaussianEliminationSleSolver g;
    int guess = v_choice("guess", 0, 3);
    solveCheck(g, L, guess > 1 ? 0 : v_choice("pre", 0, 4), guess, false);
}
void c05_n2() {
    v_allow_abort(1);
    Lin L; general(L, 2, 1);
    GaussianEliminationSleSolver g;
    int guess = v_choice("guess", 0, 3);
    solveCheck(g, L, guess > 1 ? 0 : v_choice("pre", 0, 4), guess, false);
}
void c05_n3() {
    v_allow_abort(1);
    Lin L; tri(L, 3);
    GaussianEliminationSleSolver g;
    solveCheck(g, L, 1, false, false);
}
// independent constraints and positive masses: the solver may not give up
void c05_n3_pd() {
    Lin L; tri(L, 3);
    for (int k = 0; k < 3; ++k) { v_assume(L.W[k] > 0); v_assume(L.J[k][k] != 0); }
    GaussianEliminationSleSolver g;
    solveCheck(g, L, 0, false, true);
}
// arbitrary rows, concrete W with zero and negative entries allowed through J choice
void c05_n3_band() {
    v_allow_abort(1);
    Lin L; L.n = 3; L.m = 6;
    for (int i = 0; i < 3; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 6; ++k) L.J[i][k] = (k == i || k == i + 1) ? v_realn("J", i * 16 + k) : 0; }
    for (int k = 0; k < 6; ++k) L.W[k] = k == 1 ? -1 : 1;
    GaussianEliminationSleSolver g;
    solveCheck(g, L, 3, true, false);
}
void c05_zero() {
    GaussianEliminationSleSolver g;
    int pre = v_choice("pre", 0, 4), before = v_choice("before", 0, 1);
    if (before) { Lin L; L.n = 2; L.m = 3; for (int i = 0; i < 2; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = k == i; } for (int k = 0; k < 3; ++k) L.W[k] = 1; solveCheck(g, L, 0, false, true); }
    SparseMatrix<3> J; Matrix W, b, x;
    J.initialize(6, 0); W.initialize(1, 6, 1.0); b.initialize(1, 0);
    usedMatrix(x, pre, 1, 3);
    v_assert(g.solve(J, W, b, nullptr, &x), "empty");
    v_assert(x.getHeight() == 0, "empty-shape");
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
}
// linearly dependent rows: no success
static void singular(int n) {
    v_allow_abort(1);
    Lin L; L.n = n; L.m = 3;
    int k = v_choice("dep", 0, n - 1), o = (k + 1) % n;
    double f = v_real("f");
    for (int i = 0; i < n; ++i) { L.b[i] = v_realn("b", i); for (int c = 0; c < 3; ++c) L.J[i][c] = v_realn("J", i * 16 + c); }
    for (int c = 0; c < 3; ++c) L.J[k][c] = f * L.J[o][c];
    for (int c = 0; c < 3; ++c) L.W[c] = n == 2 ? v_realn("W", c) : 1;
    SparseMatrix<3> J; Matrix W, b, x;
    fillDense(L, J, W, b);
    GaussianEliminationSleSolver g;
    v_reach("singular");
    bool ok = g.solve(J, W, b, nullptr, &x);
    v_assert(!ok, "singular");
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
}
void c05_singular2() { singular(2); }
void c05_singular3() { singular(3); }
// same solver, several sizes: answers do not depend on earlier solves
void c05_reuse() {
    v_allow_abort(1);
    GaussianEliminationSleSolver g, fresh;
    int n0 = v_choice("n0", 0, 4);
    if (n0) {
        Lin P; P.n = n0; P.m = 6;
        for (int i = 0; i < n0; ++i) { P.b[i] = v_realn("pb", i); for (int k = 0; k < 6; ++k) P.J[i][k] = k == i ? 2 : k == i + 1 ? 1 : 0; }
        for (int k = 0; k < 6; ++k) P.W[k] = 1 + k;
        solveCheck(g, P, 0, false, true);
    }
    Lin L; L.n = 2; L.m = 3;
    for (int i = 0; i < 2; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = v_realn("J", i * 16 + k); }
    for (int k = 0; k < 3; ++k) L.W[k] = 1;
    solveCheck(g, L, 0, false, false);
    SparseMatrix<3> J; Matrix W, b, x, y;
    fillDense(L, J, W, b);
    bool o1 = g.solve(J, W, b, nullptr, &x), o2 = fresh.solve(J, W, b, nullptr, &y);
    v_assert(o1 == o2, "same-status");
    if (o1) for (int i = 0; i < 2; ++i) v_eq(x.get(0, i), y.get(0, i), "same-answer");
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); y.destroy();
}
// four equations whose couplings force every pivot order: A = P-like pattern with symbolic weights
void c05_perm4() {
    v_allow_abort(1);
    Lin L; L.n = 4; L.m = 6;
    // rows i and j coupled through W of either sign
    int pat = v_choice("pattern", 0, 2);
    for (int i = 0; i < 4; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 6; ++k) L.J[i][k] = 0; }
    double p = v_real("p"), q = v_real("q");
    int pr[3][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 1, 2}};
    for (int h = 0; h < 2; ++h) {
        int i = pr[pat][2 * h], j = pr[pat][2 * h + 1];
        double w = h ? q : p;
        // [i,i] = [j,j] = 0, [i,j] = 2w  via W = (1,-1)
        L.J[i][3 * h] = w; L.J[i][3 * h + 1] = w;
        L.J[j][3 * h] = 1; L.J[j][3 * h + 1] = -1;
    }
    for (int k = 0; k < 6; ++k) L.W[k] = k % 3 == 1 ? -1 : 1;
    GaussianEliminationSleSolver g;
    solveCheck(g, L, 1, false, false);
}
static void big(int kind, int n, int past) {
    v_allow_abort(kind == 1 ? 1 : 0);
    BigLin L; bigSystem(L, n, kind);
    SparseMatrix<3> J; Matrix W, b, x;
    GaussianEliminationSleSolver g;
    bigPast(g, L, kind, past, J, W, b);
    fillBig(L, kind, J, W, b);
    bool ok = g.solve(J, W, b, nullptr, &x);
    if (kind != 1) v_assert(ok, "succeeds");
    if (ok) for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j) s += L.A(i, j) * x.get(0, j);
        v_eq(s, L.b[i], "solution");
    }
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
}
void c05_big() { int kind = v_choice("kind", 0, 2); big(kind, v_choice("n", 4, 9), 0); }
// the same matrices and the same solver, used before with other contents
void c05_big_again() { int past = v_choice("past", 1, 5), n = v_choice("n", 0, 2); big(past % 3, n == 2 ? 7 : 3 + n, past); }
// many equations, pivots next to the diagonal and far from it
void c05_wide() {
    static const int N[3] = {20, 33, 66};
    int n = N[v_choice("n", 0, 2)], kind = v_choice("kind", 0, 2);
    Wide L(n, kind);
    L.b[0] = v_real("b0"); L.b[n / 2] = v_real("b1"); L.b[n - 1] = v_real("b2");
    SparseMatrix<3> J; Matrix W, b, x;
    GaussianEliminationSleSolver g;
    if (v_choice("before", 0, 1)) { Wide P(n == 20 ? 33 : n - 3, 0); P.fill(J, W, b); g.solve(J, W, b, nullptr, &x); }
    L.fill(J, W, b);
    v_assert(g.solve(J, W, b, nullptr, &x), "succeeds");
    v_assert(x.getHeight() == n, "result-shape");
    double y[100];
    for (int i = 0; i < n; ++i) y[i] = x.get(0, i);
    for (int i = 0; i < n; ++i) v_eq(L.row(i, y), L.b[i], "solution");
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
}
// infinities and NaN in the data: a reported solution is finite
void c05_nonfinite() {
    v_allow_abort(1);
    int n = v_choice("n", 1, 3), at = v_choice("at", 0, n - 1), what = v_choice("what", 0, 2);
    SparseMatrix<3> J; Matrix W, b, x;
    J.initialize(3, n); W.initialize(1, 3, 1.0); b.resize(1, n);
    double e = v_ext("e");
    for (int i = 0; i < n; ++i) {
        J.setBlock(i, 0, 0);
        for (int k = 0; k < 3; ++k) J.set(i, 0, k, k == i ? 2 : k < i ? 1 : 0);
        b.set(0, i, i ? 3 - i : v_real("b"));
    }
    if (what == 0) b.set(0, at, e);
    if (what == 1) J.set(at, 0, at, e);
    if (what == 2) W.set(0, at, e);
    GaussianEliminationSleSolver g;
    bool ok = g.solve(J, W, b, nullptr, &x);
    v_reach("finite");
    if (ok) for (int i = 0; i < n; ++i) v_assert(v_isfinite(x.get(0, i)), "finite");
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
}
void c05_n3_row() {
    v_allow_abort(1);
    Lin L; L.n = 3; L.m = 3;
    static const double F[3][3] = {{0, 1, 2}, {1, 0, -1}, {-1, 2, 0}};
    int at = v_choice("row", 0, 2);  // a row of any values in front of, between or behind fixed ones
    for (int i = 0; i < 3; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 3; ++k) L.J[i][k] = i == at ? v_realn("J", k) : F[i][k]; }
    for (int k = 0; k < 3; ++k) L.W[k] = k == 1 ? -1 : 1;
    GaussianEliminationSleSolver g;
    solveCheck(g, L, 2, false, false);
}
void c05_n4_band() {
    v_allow_abort(1);
    Lin L; L.n = 4; L.m = 6;
    for (int i = 0; i < 4; ++i) { L.b[i] = v_realn("b", i); for (int k = 0; k < 6; ++k) L.J[i][k] = k == i ? v_realn("J", i) : k == i + 1 ? 1 : 0; }
    for (int k = 0; k < 6; ++k) L.W[k] = k == 2 ? -2 : 1;
    GaussianEliminationSleSolver g;
    solveCheck(g, L, 2, false, false);
}
}
