// Helpers for equation-system harnesses: J (n rows, nb bodies), W diagonal.
#pragma once
#include "h.h"
struct Lin {
    int n, m;              // rows, columns
    double J[8][12], W[12], b[8];
    double A(int i, int j) { double s = 0; for (int k = 0; k < m; ++k) s += J[i][k] * W[k] * J[j][k]; return s; }
};
static inline void fillDense(Lin &L, SparseMatrix<3> &J, Matrix &W, Matrix &b) {
    // one or two bodies per row: entry 0 -> block 0, entry 1 -> block 1 (when there are two)
    int nb = L.m / 3;
    J.initialize(L.m, L.n);
    W.resize(1, L.m); b.resize(1, L.n);
    for (int i = 0; i < L.n; ++i) {
        for (int e = 0; e < nb; ++e) { J.setBlock(i, e, e); for (int k = 0; k < 3; ++k) J.set(i, e, k, L.J[i][3 * e + k]); }
        b.set(0, i, L.b[i]);
    }
    for (int k = 0; k < L.m; ++k) W.set(0, k, L.W[k]);
}
// n equations with concrete couplings (a band of the given kind over six columns), arbitrary right side
// kind 0: full rank, diagonally strong; 1: zero diagonal entries on the way (indefinite W); 2: couplings to every row; 3: last two rows equal to earlier ones when n > 6
struct BigLin {
    int n, nb;
    double J[10][18], W[18], b[10];
    double A(int i, int j) { double s = 0; for (int k = 0; k < 3 * nb; ++k) s += J[i][k] * W[k] * J[j][k]; return s; }
};
static inline void bigSystem(BigLin &L, int n, int kind) {
    L.n = n; L.nb = 6;
    for (int i = 0; i < n; ++i) {
        L.b[i] = v_realn("b", i);
        for (int k = 0; k < 18; ++k) L.J[i][k] = 0;
        int b0 = kind == 2 ? 0 : i % 6, b1 = kind == 2 ? 1 + i % 5 : (i + 1) % 6;
        for (int k = 0; k < 3; ++k) {
            L.J[i][3 * b0 + k] = k == i % 3 ? 2 : (i + k) % 4 - 1;
            L.J[i][3 * b1 + k] = k == (i + 1) % 3 ? -1 : (i * 3 + k) % 3 * 0.5;
        }
    }
    for (int k = 0; k < 18; ++k) L.W[k] = kind == 1 && k % 4 == 1 ? -1 : 1 + k % 3 * 0.5;
}
static inline void fillBig(BigLin &L, int kind, SparseMatrix<3> &J, Matrix &W, Matrix &b) {
    J.initialize(18, L.n); W.resize(1, 18); b.resize(1, L.n);
    for (int i = 0; i < L.n; ++i) {
        int b0 = kind == 2 ? 0 : i % 6, b1 = kind == 2 ? 1 + i % 5 : (i + 1) % 6;
        J.setBlock(i, 0, b0); J.setBlock(i, 1, b1);
        for (int k = 0; k < 3; ++k) { J.set(i, 0, k, L.J[i][3 * b0 + k]); J.set(i, 1, k, L.J[i][3 * b1 + k]); }
        b.set(0, i, L.b[i]);
    }
    for (int k = 0; k < 18; ++k) W.set(0, k, L.W[k]);
}
// what these very matrices and this solver went through before: other values in the same J (1), W (2) or b (3), another solver
// working on them in between (4), or another number of equations (5)
template <class G> static void bigPast(G &g, BigLin &L, int kind, int how, SparseMatrix<3> &J, Matrix &W, Matrix &b) {
    if (!how) return;
    BigLin P; bigSystem(P, how == 5 ? L.n - 1 : L.n, kind == 1 ? 0 : kind);
    for (int i = 0; i < P.n; ++i) {
        P.b[i] = 2.0 - i;
        if (how == 1 || how == 4) for (int k = 0; k < 18; ++k) P.J[i][k] *= i % 2 ? 2 : -3;
    }
    if (how == 2) for (int k = 0; k < 18; ++k) P.W[k] = 3 - k % 2;
    Matrix x, y;
    G h;
    if (how == 4) {
        BigLin T = L;
        for (int i = 0; i < T.n; ++i) T.b[i] = i - 1.0;
        fillBig(T, kind, J, W, b);
        g.solve(J, W, b, nullptr, &y);
    }
    fillBig(P, kind, J, W, b);
    if (how == 4) h.solve(J, W, b, nullptr, &x); else g.solve(J, W, b, nullptr, &x);
    x.destroy(); y.destroy();
}
static inline void unchanged(Lin &L, SparseMatrix<3> &J, Matrix &W, Matrix &b) {
    int nb = L.m / 3;
    v_assert(J.getWidth() == L.m && J.getHeight() == L.n && W.getWidth() == 1 && W.getHeight() == L.m && b.getWidth() == 1 && b.getHeight() == L.n, "inputs-shape");
    for (int i = 0; i < L.n; ++i) {
        for (int e = 0; e < nb; ++e) for (int k = 0; k < 3; ++k) v_eq(J.get(i, e, k), L.J[i][3 * e + k], "J-unchanged");
        v_eq(b.get(0, i), L.b[i], "b-unchanged");
    }
    for (int k = 0; k < L.m; ++k) v_eq(W.get(0, k), L.W[k], "W-unchanged");
}
// an earlier solve with the same solver object: other equations of size n over nb bodies
template <class G> static void earlierSolve(G &g, int n, int nb, bool limited) {
    SparseMatrix<3> J; Matrix W, b, l, x;
    J.initialize(3 * nb, n); W.initialize(1, 3 * nb, 1.0); b.resize(1, n); l.resize(2, n); x.initialize(1, n);
    double t = v_real("earlier");
    for (int i = 0; i < n; ++i) {
        J.setBlock(i, 0, 0); if (nb > 1) J.setBlock(i, 1, 1);
        for (int k = 0; k < 3; ++k) J.set(i, 0, k, k == i ? 3 : k < i ? 1 : 0);
        b.set(0, i, i ? 1 : t); l.set(0, i, -1); l.set(1, i, 1);
    }
    if (limited) g.solveWithLimits(J, W, b, l, &x, &x); else g.solve(J, W, b, &x, &x);
    J.destroy(); W.destroy(); b.destroy(); l.destroy(); x.destroy();
}
// many equations with concrete couplings. kind 0: a chain (row i on bodies i and i+1); 1: nothing on the diagonal, each row's
// only coupling is to the row at the other end (W of both signs); 2: every row coupled to every other through body 0;
// 3: a chain with negative diagonal entries now and then
struct Wide {
    int n, nb;
    int blk[100][2]; double v[100][2][3], W[306], b[100];
    Wide(int n_, int kind) : n(n_), nb(n_ + 1) {
        for (int k = 0; k < 3 * nb; ++k) W[k] = kind == 1 ? (k % 3 == 1 ? -1 : 1) : 1 + k % 3 * 0.5;
        for (int i = 0; i < n; ++i) {
            b[i] = i % 7 - 3;
            int p = i < n - 1 - i ? i : n - 1 - i;
            blk[i][0] = kind == 1 ? p : kind == 2 ? 0 : i; blk[i][1] = kind == 1 ? -1 : i + 1;
            for (int k = 0; k < 3; ++k) {
                if (kind == 1) { v[i][0][k] = k == 2 ? (2 * p == n - 1) : k == 1 && i > p ? -1 : 1; v[i][1][k] = 0; }
                else { v[i][0][k] = kind == 2 ? (k == i % 3) * 0.25 : k == 1 ? 0.5 : k == 0; v[i][1][k] = k == (i + 1) % 3 ? 2 : k == i % 3 ? -1 : 0; }
            }
            if (kind == 3 && i % 5 == 2) for (int k = 0; k < 3; ++k) W[3 * i + 3 + k] = -2;
        }
    }
    void fill(SparseMatrix<3> &Js, Matrix &Wm, Matrix &bm) {
        Js.initialize(3 * nb, n); Wm.resize(1, 3 * nb); bm.resize(1, n);
        for (int i = 0; i < n; ++i) {
            for (int e = 0; e < 2; ++e) if (blk[i][e] >= 0) { Js.setBlock(i, e, blk[i][e]); for (int k = 0; k < 3; ++k) Js.set(i, e, k, v[i][e][k]); }
            bm.set(0, i, b[i]);
        }
        for (int k = 0; k < 3 * nb; ++k) Wm.set(0, k, W[k]);
    }
    double A(int i, int j) { double s = 0; for (int e = 0; e < 2; ++e) for (int f = 0; f < 2; ++f) if (blk[i][e] >= 0 && blk[i][e] == blk[j][f]) for (int k = 0; k < 3; ++k) s += v[i][e][k] * W[3 * blk[i][e] + k] * v[j][f][k]; return s; }
    double row(int i, const double *x) { double s = 0; for (int j = 0; j < n; ++j) { double a = A(i, j); if (a != 0) s += a * x[j]; } return s; }
};
// two equations x0 + x1 = 0, x0 + x1 = 1: each sweep moves x1 up and x0 down by one. Start: x1 = X in [10, 10.5], x0 = 1 - X
struct Drift {
    SparseMatrix<3> J; Matrix W, b, l, x, p; double X;
    Drift() {
        J.initialize(3, 2); W.initialize(1, 3, 1.0); b.resize(1, 2); p.resize(1, 2); l.resize(2, 2);
        for (int i = 0; i < 2; ++i) { J.setBlock(i, 0, 0); J.set(i, 0, 0, 1.0); l.set(0, i, -1e9); l.set(1, i, 1e9); }
        X = v_real("X"); v_assume(X >= 10); v_assume(X <= 10.5);
        b.set(0, 0, 0.0); b.set(0, 1, 1.0); p.set(0, 0, 1 - X); p.set(0, 1, X);
    }
    // the largest relative change of sweep t is 1 / (X + t - 2)
    static const int LAST = 193;
    static double fraction() { return 1 / 200.75; }
    void verify(bool ok, int its, bool endless) {
        int n = !endless && its > LAST ? LAST : its;
        v_assert(ok == (!endless && its >= LAST), "status");
        v_eq(x.get(0, 0), 1 - X - n, "sweep"); v_eq(x.get(0, 1), X + n, "sweep");
    }
    ~Drift() { J.destroy(); W.destroy(); b.destroy(); l.destroy(); x.destroy(); p.destroy(); }
};
static const int ITS[6] = {1, 45, 129, 192, 260, 1100};
