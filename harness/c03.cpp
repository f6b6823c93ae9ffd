// C03 sparse block matrices agree with the dense matrix they denote
#include "h.h"
//@ bound every layout of 0..2 rows (thorough: 0..3) x 2 (and 3) entries per row over up to 3 blocks with distinct occupied blocks per row, strides 1 to 5 with 1 to 4 entries, all values symbolic; dense operands of 1..3 columns; targets fresh or used; up to 12 rows with a fixed layout; single rows with block numbers 0..400 and up to 39999
//@ entry c03_expand need=expand,expandT
//@ entry c03_vec need=multiply,transposeMultiplyVector
//@ entry c03_mat need=multiply
//@ entry c03_mt need=multiplyTranspose
//@ entry c03_scale need=rightScale,leftScale
//@ entry c03_expand1
//@ entry c03_expand23
//@ entry c03_mt23
//@ entry c03_mt22 need=multiplyTranspose
//@ entry c03_shapes need=multiply,transposeMultiplyVector
//@ entry c03_shapes_mat need=multiply
//@ entry c03_shapes_mt need=multiplyTranspose
//@ entry c03_shapes_scale need=rightScale,leftScale
//@ entry c03_rows need=rows
//@ entry c03_huge need=large
//@ entry c03_large need=large
//@ entry c03_expand_t thorough
//@ entry c03_vec_t thorough
//@ entry c03_mt_t thorough
//@ entry c03_scale_t thorough

static double cell(const char *nm, int i) { return v_realn(nm, i); }
// fills s with a symbolic layout; dense gets the denoted matrix
template <int S, int E> static void symSparse(SparseMatrix<S, E> &s, Ref &d, const char *nm, const char *lay, int rows, int blocks, bool emptied) {
    s.initialize(blocks * S, rows);
    d.w = blocks * S; d.h = rows;
    for (int i = 0; i < d.w * d.h; ++i) d.a[i] = 0;
    for (int i = 0; i < rows; ++i) {
        int used[E];
        for (int j = 0; j < E; ++j) {
            int b = v_choice(lay, -1, blocks - 1);
            if (b >= 0) for (int k = 0; k < j; ++k) if (used[k] == b) v_assume(false);
            used[j] = b;
            if (b < 0) {
                if (emptied) {
                    if (blocks) s.setBlock(i, j, 0);
                    for (int k = 0; k < S; ++k) s.set(i, j, k, 99.0);
                    s.setEmpty(i, j);
                }
                continue;
            }
            s.setBlock(i, j, b);
            for (int k = 0; k < S; ++k) {
                double v = cell(nm, (i * E + j) * S + k);
                s.set(i, j, k, v);
                d.at(i, b * S + k) = v;
            }
        }
    }
}
template <int S, int E> static void expand(int R, int B) {
    int rows = v_choice("rows", 0, R), blocks = v_choice("blocks", 1, B), pre = v_choice("pre", 0, 2);
    SparseMatrix<S, E> s;
    Ref d, dt;
    symSparse(s, d, "s", "lay", rows, blocks, pre == 2);
    Matrix t, tt;
    usedMatrix(t, pre, d.w, d.h); usedMatrix(tt, pre, d.h, d.w);
    s.expand(&t); s.expandTransposed(&tt);
    dt.w = d.h; dt.h = d.w;
    for (int i = 0; i < d.h; ++i) for (int j = 0; j < d.w; ++j) dt.at(j, i) = d.at(i, j);
    same(t, d, "expand"); same(tt, dt, "expandT");
    v_assert(s.getWidth() == d.w && s.getHeight() == d.h, "dims");
    s.expand(&t); same(t, d, "unchanged");
    s.destroy(); t.destroy(); tt.destroy();
}
template <int S, int E> static void vec(int R, int B) {
    int rows = v_choice("rows", 0, R), blocks = v_choice("blocks", 1, B), pre = v_choice("pre", 0, 2);
    SparseMatrix<S, E> s;
    Ref d, rb, rc, r1, r2;
    symSparse(s, d, "s", "lay", rows, blocks, false);
    Matrix b, c, t1, t2, x;
    symMatrix(b, rb, "b", 1, d.w); symMatrix(c, rc, "c", 1, d.h);
    usedMatrix(t1, pre, 1, d.h); usedMatrix(t2, pre, 1, d.w);
    s.multiply(b, &t1);
    r1.w = 1; r1.h = d.h;
    for (int i = 0; i < d.h; ++i) { r1.a[i] = 0; for (int j = 0; j < d.w; ++j) r1.a[i] += d.at(i, j) * rb.a[j]; }
    same(t1, r1, "multiply");
    if (rows) {
        s.transposeMultiplyVector(c, &t2);
        r2.w = 1; r2.h = d.w;
        for (int j = 0; j < d.w; ++j) { r2.a[j] = 0; for (int i = 0; i < d.h; ++i) r2.a[j] += d.at(i, j) * rc.a[i]; }
        same(t2, r2, "transposeMultiplyVector");
        same(c, rc, "operand");
    }
    same(b, rb, "operand");
    s.expand(&x); same(x, d, "operand");
    s.destroy(); b.destroy(); c.destroy(); t1.destroy(); t2.destroy(); x.destroy();
}
template <int S, int E> static void mat(int R, int B) {
    int rows = v_choice("rows", 0, R), blocks = v_choice("blocks", 1, B), cols = v_choice("cols", 1, 3);
    SparseMatrix<S, E> s;
    Ref d, rb, r;
    symSparse(s, d, "s", "lay", rows, blocks, true);
    Matrix b, t;
    symMatrix(b, rb, "b", cols, d.w, true);
    usedMatrix(t, 1, cols, d.h);
    s.multiply(b, &t);
    r.w = cols; r.h = d.h;
    for (int i = 0; i < d.h; ++i) for (int j = 0; j < cols; ++j) {
        double v = 0;
        for (int k = 0; k < d.w; ++k) v += d.at(i, k) * rb.at(k, j);
        r.at(i, j) = v;
    }
    same(t, r, "multiply");
    s.destroy(); b.destroy(); t.destroy();
}
template <int S, int E> static void mt(int R1, int R2, int B) {
    int ra = v_choice("rowsa", 0, R1), rb = v_choice("rowsb", 0, R2), blocks = v_choice("blocks", 1, B);
    SparseMatrix<S, E> a, b;
    Ref da, db, r;
    symSparse(a, da, "a", "laya", ra, blocks, false);
    symSparse(b, db, "b", "layb", rb, blocks, true);
    Matrix t;
    usedMatrix(t, 1, rb, ra);
    a.multiplyTranspose(b, &t);
    r.w = rb; r.h = ra;
    for (int i = 0; i < ra; ++i) for (int j = 0; j < rb; ++j) {
        double v = 0;
        for (int k = 0; k < da.w; ++k) v += da.at(i, k) * db.at(j, k);
        r.at(i, j) = v;
    }
    same(t, r, "multiplyTranspose");
    Matrix x;
    a.expand(&x); same(x, da, "operand");
    b.expand(&x); same(x, db, "operand");
    a.destroy(); b.destroy(); t.destroy(); x.destroy();
}
template <int S, int E> static void scale(int R, int B) {
    int rows = v_choice("rows", 0, R), blocks = v_choice("blocks", 1, B), pre = v_choice("pre", 0, 2), op = v_choice("op", 0, 1);
    SparseMatrix<S, E> s, t;
    Ref d, rw, r;
    symSparse(s, d, "s", "lay", rows, blocks, false);
    if (pre) {  // target previously holding something else
        Ref dd;
        t.initialize(S * (pre == 1 ? blocks : blocks + 1), pre == 1 ? rows : rows + 1);
        for (int i = 0; i < t.getHeight(); ++i) for (int j = 0; j < E; ++j) { t.setBlock(i, j, j % blocks); for (int k = 0; k < S; ++k) t.set(i, j, k, 55.0); }
    }
    Matrix w, x;
    symMatrix(w, rw, "w", 1, op == 0 ? d.w : d.h);
    if (op == 0) s.rightScale(w, &t); else s.leftScale(w, &t);
    r.w = d.w; r.h = d.h;
    for (int i = 0; i < d.h; ++i) for (int j = 0; j < d.w; ++j) r.at(i, j) = d.at(i, j) * rw.a[op == 0 ? j : i];
    t.expand(&x);
    same(x, r, op == 0 ? "rightScale" : "leftScale");
    s.expand(&x); same(x, d, "operand"); same(w, rw, "operand");
    s.destroy(); t.destroy(); w.destroy(); x.destroy();
}
extern "C" {
void c03_expand() { expand<3, 2>(2, 3); }
void c03_expand1() { expand<1, 1>(3, 3); }
void c03_expand23() { expand<2, 3>(1, 3); }
void c03_expand_t() { expand<3, 2>(3, 3); }
void c03_vec() { vec<3, 2>(2, 3); }
void c03_vec_t() { vec<2, 3>(2, 3); }
void c03_mat() { mat<3, 2>(2, 2); }
void c03_mt() { mt<3, 2>(2, 1, 3); }
void c03_mt23() { mt<2, 3>(1, 1, 3); }
void c03_mt22() { mt<3, 2>(2, 2, 2); }
// many rows, one fixed layout
void c03_rows() {
    static const int D[4] = {3, 4, 7, 12};
    int n = D[v_choice("n", 0, 3)], m = v_choice("m", 0, 1) ? n : 5;
    SparseMatrix<3> a, b, t;
    Ref da, db, r;
    int nb = 9, ra[2] = {n, m};
    SparseMatrix<3> *sm[2] = {&a, &b}; Ref *dm[2] = {&da, &db};
    for (int q = 0; q < 2; ++q) {
        sm[q]->initialize(3 * nb, ra[q]);
        dm[q]->w = 3 * nb; dm[q]->h = ra[q];
        for (int i = 0; i < 3 * nb * ra[q]; ++i) dm[q]->a[i] = 0;
        for (int i = 0; i < ra[q]; ++i) for (int e = 0; e < 2; ++e) {
            int bl = e == 0 ? (i * 2 + q) % nb : (i * 2 + q + 1 + i % 3) % nb;
            if ((i + e) % 5 == 4) continue;
            sm[q]->setBlock(i, e, bl);
            for (int k = 0; k < 3; ++k) { double v = v_realn(q ? "b" : "a", (i * 2 + e) * 3 + k); sm[q]->set(i, e, k, v); dm[q]->at(i, 3 * bl + k) = v; }
        }
    }
    Matrix M, x, u, w, y;
    a.multiplyTranspose(b, &M);
    v_assert(M.getWidth() == m && M.getHeight() == n, "rows");
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double s = 0; for (int k = 0; k < 3 * nb; ++k) s += da.at(i, k) * db.at(j, k); v_eq(M.get(j, i), s, "rows"); }
    a.expand(&x); same(x, da, "rows");
    a.expandTransposed(&x);
    for (int i = 0; i < n; ++i) for (int j = 0; j < 3 * nb; ++j) v_eq(x.get(i, j), da.at(i, j), "rows");
    u.resize(1, 3 * nb); w.resize(1, n);
    for (int j = 0; j < 3 * nb; ++j) u.set(0, j, v_realn("u", j));
    for (int i = 0; i < n; ++i) w.set(0, i, v_realn("w", i));
    a.multiply(u, &y);
    for (int i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < 3 * nb; ++k) s += da.at(i, k) * v_realn("u", k); v_eq(y.get(0, i), s, "rows"); }
    a.transposeMultiplyVector(w, &y);
    for (int j = 0; j < 3 * nb; ++j) { double s = 0; for (int i = 0; i < n; ++i) s += da.at(i, j) * v_realn("w", i); v_eq(y.get(0, j), s, "rows"); }
    a.rightScale(u, &t); t.expand(&x);
    for (int i = 0; i < n; ++i) for (int j = 0; j < 3 * nb; ++j) v_eq(x.get(j, i), da.at(i, j) * v_realn("u", j), "rows");
    a.leftScale(w, &t); t.expand(&x);
    for (int i = 0; i < n; ++i) for (int j = 0; j < 3 * nb; ++j) v_eq(x.get(j, i), da.at(i, j) * v_realn("w", i), "rows");
    a.destroy(); b.destroy(); t.destroy(); M.destroy(); x.destroy(); u.destroy(); w.destroy(); y.destroy();
}
void c03_mt_t() { mt<3, 2>(2, 2, 3); }
void c03_scale() { scale<3, 2>(2, 3); }
void c03_scale_t() { scale<3, 2>(3, 3); }
// other strides and entry counts
void c03_shapes() {
    switch (v_choice("shape", 0, 3)) {
    case 0: vec<2, 3>(1, 3); break;
    case 1: vec<4, 1>(2, 2); break;
    case 2: vec<1, 4>(1, 2); break;
    default: vec<5, 2>(1, 2);
    }
}
void c03_shapes_mat() { if (v_choice("shape", 0, 1)) mat<2, 3>(1, 2); else mat<4, 1>(2, 2); }
void c03_shapes_mt() { if (v_choice("shape", 0, 1)) mt<4, 1>(2, 2, 2); else mt<1, 4>(1, 1, 2); }
void c03_shapes_scale() {
    switch (v_choice("shape", 0, 3)) {
    case 0: scale<2, 3>(1, 3); break;
    case 1: scale<4, 1>(2, 2); break;
    case 2: scale<1, 4>(1, 2); break;
    default: scale<3, 3>(1, 2);
    }
}
// block numbers beyond any small range
void c03_large() {
    int b0 = v_choice("b0", 250, 260), b1 = v_choice("b1", 0, 3);
    b1 = b1 == 0 ? 0 : b1 == 1 ? 4 : b1 == 2 ? 255 : 399;
    if (b1 == b0) v_assume(false);
    SparseMatrix<3> s, t;
    s.initialize(1200, 2); 
    double v[6];
    for (int k = 0; k < 6; ++k) { v[k] = v_realn("v", k); s.set(0, k / 3, k % 3, v[k]); }
    s.setBlock(0, 0, b0); s.setBlock(0, 1, b1);
    s.setBlock(1, 1, 2); s.set(1, 1, 0, 7.0); s.set(1, 1, 1, 0.0); s.set(1, 1, 2, 0.0);
    Matrix x, w, M;
    s.expand(&x);
    for (int j = 0; j < 1200; ++j) {
        double want = j / 3 == b0 ? v[j % 3] : j / 3 == b1 ? v[3 + j % 3] : 0;
        if (j / 3 == b0 || j / 3 == b1 || j % 100 == 0 || j / 3 == (b0 & 255) || j / 3 == (b1 & 255)) v_eq(x.get(j, 0), want, "large");
    }
    w.initialize(1, 1200, 2.0);
    s.rightScale(w, &t);
    t.multiplyTranspose(s, &M);
    double n = 0;
    for (int k = 0; k < 6; ++k) n += 2 * v[k] * v[k];
    v_eq(M.get(0, 0), n, "large");
    v_eq(M.get(1, 0), b1 == 2 ? 14 * v[3] : 0, "large");
    // the other operations
    Matrix xt, u, r, y, d, sc;
    s.expandTransposed(&xt);
    u.initialize(1, 1200, 1.0);
    for (int k = 0; k < 3; ++k) { u.set(0, 3 * b0 + k, 5.0 + k); u.set(0, 3 * b1 + k, -3.0 - k); }
    s.multiply(u, &r);
    double e = 0;
    for (int k = 0; k < 3; ++k) e += (5.0 + k) * v[k] + (-3.0 - k) * v[3 + k];
    v_eq(r.get(0, 0), e, "large");
    v_eq(r.get(0, 1), b0 == 2 ? 35 : b1 == 2 ? -21 : 7, "large");
    y.resize(1, 2); y.set(0, 0, v_real("y")); y.set(0, 1, 0.0);
    s.transposeMultiplyVector(y, &d);
    sc.resize(1, 2); sc.set(0, 0, v_real("y")); sc.set(0, 1, 3.0);
    SparseMatrix<3> ls; Matrix lx;
    s.leftScale(sc, &ls); ls.expand(&lx);
    for (int j = 0; j < 1200; ++j) {
        double want = j / 3 == b0 ? v[j % 3] : j / 3 == b1 ? v[3 + j % 3] : 0;
        if (j / 3 == b0 || j / 3 == b1 || j % 100 == 0 || j / 3 == (b0 & 255) || j / 3 == (b1 & 255)) {
            v_eq(xt.get(0, j), want, "large"); v_eq(d.get(0, j), v_real("y") * want, "large"); v_eq(lx.get(j, 0), v_real("y") * want, "large");
        }
    }
    s.destroy(); t.destroy(); x.destroy(); w.destroy(); M.destroy();
    xt.destroy(); u.destroy(); r.destroy(); y.destroy(); d.destroy(); sc.destroy(); ls.destroy(); lx.destroy();
}
// block numbers in the tens of thousands
void c03_huge() {
    static const int B[4] = {32767, 32768, 39999, 33000};
    int b0 = B[v_choice("b0", 0, 3)], b1 = v_choice("b1", 0, 1) ? 32766 : 5, w = 120000;
    SparseMatrix<3> s;
    Matrix x, u, y, d;
    double v[6];
    s.initialize(w, 1);
    s.setBlock(0, 0, b0); s.setBlock(0, 1, b1);
    for (int k = 0; k < 6; ++k) { v[k] = v_realn("v", k); s.set(0, k / 3, k % 3, v[k]); }
    s.expand(&x);
    v_assert(x.getWidth() == w && x.getHeight() == 1, "large");
    for (int j = 0; j < w; ++j) { int q = j / 3; if (q == b0 || q == b1) v_eq(x.get(j, 0), v[(q == b1) * 3 + j % 3], "large"); else v_assert(x.get(j, 0) == 0, "large"); }
    u.initialize(1, w, 1.0);
    for (int k = 0; k < 3; ++k) { u.set(0, 3 * b0 + k, 5.0 + k); u.set(0, 3 * b1 + k, -3.0 - k); }
    s.multiply(u, &y);
    double e = 0;
    for (int k = 0; k < 3; ++k) e += (5.0 + k) * v[k] + (-3.0 - k) * v[3 + k];
    v_eq(y.get(0, 0), e, "large");
    s.transposeMultiplyVector(y, &d);
    v_assert(d.getWidth() == 1 && d.getHeight() == w, "large");
    for (int k = 0; k < 3; ++k) { v_eq(d.get(0, 3 * b0 + k), e * v[k], "large"); v_eq(d.get(0, 3 * b1 + k), e * v[3 + k], "large"); }
    s.destroy(); x.destroy(); u.destroy(); y.destroy(); d.destroy();
}
}
