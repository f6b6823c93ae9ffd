// C01 dense matrix operations
#include "h.h"
//@ bound quick: every operand shape 0..3 x 0..3 (inner dimension 0..3), every entry an arbitrary real, operands with and without physically swapped rows; targets fresh, larger, smaller, row-swapped or destroyed beforehand; thorough: shapes 0..4; single larger shapes up to 70 columns or inner dimension and 201 rows for every operation
//@ entry c01_multiply need=multiply,multiply_operand
//@ entry c01_transpose_multiply need=transposeMultiply
//@ entry c01_unary need=transpose,scale,negate
//@ entry c01_scale need=leftScale,rightScale
//@ entry c01_binary need=add,subtract,componentMultiply
//@ entry c01_alias need=alias
//@ entry c01_madd need=madd,pmadd
//@ entry c01_vector need=dot,magnitude
//@ entry c01_equals need=equals
//@ entry c01_large need=large
//@ entry c01_tall need=large
//@ entry c01_multiply4 thorough
//@ entry c01_transpose_multiply4 thorough
//@ entry c01_unary4 thorough
//@ entry c01_binary4 thorough

static void mul(int N, int P) {
    int m = v_choice("rows", 0, N), k = v_choice("inner", 0, N), n = v_choice("cols", 0, N), pre = v_choice("pre", 0, P);
    bool sw = v_choice("swap", 0, 1) == 1;
    Matrix a, b, t;
    Ref ra, rb, rt;
    symMatrix(a, ra, "a", k, m, sw); symMatrix(b, rb, "b", n, k, sw);
    usedMatrix(t, pre, n, m);
    a.multiply(b, &t);
    rt.w = n; rt.h = m;
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
        double s = 0;
        for (int l = 0; l < k; ++l) s += ra.at(i, l) * rb.at(l, j);
        rt.at(i, j) = s;
    }
    same(t, rt, "multiply"); same(a, ra, "multiply_operand"); same(b, rb, "multiply_operand");
    a.destroy(); b.destroy(); t.destroy();
}
static void tmul(int N, int P) {
    int m = v_choice("rows", 0, N), k = v_choice("inner", 0, N), n = v_choice("cols", 0, N), pre = v_choice("pre", 0, P);
    bool sw = v_choice("swap", 0, 1) == 1;
    Matrix a, b, t;
    Ref ra, rb, rt;
    symMatrix(a, ra, "a", m, k, sw); symMatrix(b, rb, "b", n, k);
    usedMatrix(t, pre, n, m);
    a.transposeMultiply(b, &t);
    rt.w = n; rt.h = m;
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
        double s = 0;
        for (int l = 0; l < k; ++l) s += ra.at(l, i) * rb.at(l, j);
        rt.at(i, j) = s;
    }
    same(t, rt, "transposeMultiply"); same(a, ra, "operand"); same(b, rb, "operand");
    a.destroy(); b.destroy(); t.destroy();
}
static void unary(int N) {
    int w = v_choice("w", 0, N), h = v_choice("h", 0, N), pre = v_choice("pre", 0, 4), op = v_choice("op", 0, 2);
    bool sw = v_choice("swap", 0, 1) == 1;
    Matrix a, t;
    Ref ra, rt;
    symMatrix(a, ra, "a", w, h, sw);
    rt.w = op == 0 ? h : w; rt.h = op == 0 ? w : h;
    usedMatrix(t, pre, rt.w, rt.h);
    double s = v_real("s");
    if (op == 0) a.transpose(&t);
    if (op == 1) a.scale(s, &t);
    if (op == 2) a.negate(&t);
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) {
        if (op == 0) rt.at(j, i) = ra.at(i, j);
        if (op == 1) rt.at(i, j) = s * ra.at(i, j);
        if (op == 2) rt.at(i, j) = -ra.at(i, j);
    }
    same(t, rt, op == 0 ? "transpose" : op == 1 ? "scale" : "negate");
    same(a, ra, "operand");
    a.destroy(); t.destroy();
}
static void bin(int N) {
    int w = v_choice("w", 0, N), h = v_choice("h", 0, N), pre = v_choice("pre", 0, 4), op = v_choice("op", 0, 2);
    bool sw = v_choice("swap", 0, 1) == 1;
    Matrix a, b, t;
    Ref ra, rb, rt;
    symMatrix(a, ra, "a", w, h, sw); symMatrix(b, rb, "b", w, h);
    usedMatrix(t, pre, w, h);
    if (op == 0) a.add(b, &t);
    if (op == 1) a.subtract(b, &t);
    if (op == 2) a.componentMultiply(b, &t);
    rt.w = w; rt.h = h;
    for (int i = 0; i < w * h; ++i) rt.a[i] = op == 0 ? ra.a[i] + rb.a[i] : op == 1 ? ra.a[i] - rb.a[i] : ra.a[i] * rb.a[i];
    same(t, rt, op == 0 ? "add" : op == 1 ? "subtract" : "componentMultiply");
    same(a, ra, "operand"); same(b, rb, "operand");
    a.destroy(); b.destroy(); t.destroy();
}
extern "C" {
// larger shapes: every operation, sizes around and beyond any unrolled or blocked loop
void c01_large() {
    static const int D[12] = {4, 5, 6, 7, 8, 11, 16, 21, 33, 40, 67, 70};
    int n = D[v_choice("n", 0, 11)], m = v_choice("m", 0, 2), op = v_choice("op", 0, 2);
    m = m == 0 ? 1 : m == 1 ? 2 : 5;
    Matrix a, b, t;
    Ref ra, rb, rt;
    usedMatrix(t, (n + m + op) % 5, op == 1 ? n : op == 2 ? 2 : m, op == 0 ? 2 : m);
    if (op == 0) {          // inner dimension n
        symMatrix(a, ra, "a", n, 2, true); symMatrix(b, rb, "b", m, n, true);
        a.multiply(b, &t);
        rt.w = m; rt.h = 2;
        for (int i = 0; i < 2; ++i) for (int j = 0; j < m; ++j) { double s = 0; for (int l = 0; l < n; ++l) s += ra.at(i, l) * rb.at(l, j); rt.at(i, j) = s; }
    } else if (op == 1) {   // n columns in the result
        symMatrix(a, ra, "a", 2, m, true); symMatrix(b, rb, "b", n, 2, true);
        a.multiply(b, &t);
        rt.w = n; rt.h = m;
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int l = 0; l < 2; ++l) s += ra.at(i, l) * rb.at(l, j); rt.at(i, j) = s; }
    } else {
        symMatrix(a, ra, "a", m, n, true); symMatrix(b, rb, "b", 2, n, true);
        a.transposeMultiply(b, &t);
        rt.w = 2; rt.h = m;
        for (int i = 0; i < m; ++i) for (int j = 0; j < 2; ++j) { double s = 0; for (int l = 0; l < n; ++l) s += ra.at(l, i) * rb.at(l, j); rt.at(i, j) = s; }
    }
    same(t, rt, "large"); same(a, ra, "operand"); same(b, rb, "operand");
    a.destroy(); b.destroy(); t.destroy();
}
void c01_tall() {
    static const int D[11] = {4, 5, 7, 9, 17, 21, 33, 40, 67, 70, 201};
    int n = D[v_choice("n", 0, 10)], m = v_choice("m", 0, 1), flip = v_choice("flip", 0, 1), op = v_choice("op", 0, 10);
    m = m ? 5 : 1;
    int w = flip ? n : m, h = flip ? m : n;
    Matrix a, b, s, t;
    Ref ra, rb, rs, rt;
    symMatrix(a, ra, "a", w, h, true); symMatrix(b, rb, "b", w, h);
    symMatrix(s, rs, "s", 1, op == 4 ? h : w);
    usedMatrix(t, (n + op) % 5, op == 7 ? h : w, op == 7 ? w : h);
    double k = v_real("k");
    rt.w = op == 7 ? h : w; rt.h = op == 7 ? w : h;
    Matrix *r = &t;
    switch (op) {
    case 0: a.add(b, &t); break;
    case 1: a.subtract(b, &t); break;
    case 2: a.componentMultiply(b, &t); break;
    case 3: a.scale(k, &t); break;
    case 4: a.leftScale(s, &t); break;
    case 5: a.rightScale(s, &t); break;
    case 6: a.negate(&t); break;
    case 7: a.transpose(&t); break;
    case 8: a.madd(b, k); r = &a; break;
    case 9: a.pmadd(b, k); r = &a; break;
    case 10: t.set(&a); break;
    }
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) {
        double x = ra.at(i, j), y = rb.at(i, j), v = 0;
        switch (op) {
        case 0: v = x + y; break; case 1: v = x - y; break; case 2: v = x * y; break; case 3: v = k * x; break;
        case 4: v = x * rs.at(i, 0); break; case 5: v = x * rs.at(j, 0); break; case 6: v = -x; break; case 7: v = x; break;
        case 8: v = x + y * k; break; case 9: v = k * x + y; break; case 10: v = x; break;
        }
        if (op == 7) rt.at(j, i) = v; else rt.at(i, j) = v;
    }
    same(*r, rt, "large"); same(b, rb, "operand");
    if (w == 1) {
        double d = 0, q = 0;
        for (int i = 0; i < h; ++i) { d += rb.a[i] * rb.a[i]; q += rt.a[i] * rb.a[i]; }
        if (op != 7) v_eq(r->dot(b), q, "large");
        v_eq(b.vectorMagnitudeSquared(), d, "large");
    }
    a.destroy(); b.destroy(); s.destroy(); t.destroy();
}
void c01_multiply() { mul(3, 4); }
void c01_multiply4() { mul(4, 4); }
void c01_transpose_multiply() { tmul(3, 4); }
void c01_transpose_multiply4() { tmul(4, 4); }
void c01_unary() { unary(3); }
void c01_unary4() { unary(5); }
void c01_binary() { bin(3); }
void c01_binary4() { bin(5); }

void c01_scale() {
    int w = v_choice("w", 1, 3), h = v_choice("h", 1, 3), pre = v_choice("pre", 0, 4), op = v_choice("op", 0, 1);
    bool sw = v_choice("swap", 0, 1) == 1;
    Matrix a, s, t;
    Ref ra, rs, rt;
    symMatrix(a, ra, "a", w, h, sw);
    symMatrix(s, rs, "s", 1, op == 0 ? h : w, sw);
    usedMatrix(t, pre, w, h);
    if (op == 0) a.leftScale(s, &t); else a.rightScale(s, &t);
    rt.w = w; rt.h = h;
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) rt.at(i, j) = ra.at(i, j) * rs.at(op == 0 ? i : j, 0);
    same(t, rt, op == 0 ? "leftScale" : "rightScale");
    same(a, ra, "operand"); same(s, rs, "operand");
    a.destroy(); s.destroy(); t.destroy();
}
// element-wise operations with the target being one of the operands
void c01_alias() {
    int w = v_choice("w", 1, 3), h = v_choice("h", 1, 3), op = v_choice("op", 0, 6), which = v_choice("which", 0, 2);
    bool sw = v_choice("swap", 0, 1) == 1;
    Matrix a, b, s;
    Ref ra, rb, rs, rt;
    symMatrix(a, ra, "a", w, h, sw); symMatrix(b, rb, "b", w, h);
    symMatrix(s, rs, "s", 1, op == 5 ? h : w);
    double k = v_real("k");
    Matrix *t = which == 1 ? &b : &a, *o = which == 2 ? &a : &b;
    Ref *ro = which == 2 ? &ra : &rb;
    if (op == 0) a.add(*o, t);
    if (op == 1) a.subtract(*o, t);
    if (op == 2) a.componentMultiply(*o, t);
    if (op == 3) { t = &a; a.scale(k, t); }
    if (op == 4) { t = &a; a.negate(t); }
    if (op == 5) { t = &a; a.leftScale(s, t); }
    if (op == 6) { t = &a; a.rightScale(s, t); }
    rt.w = w; rt.h = h;
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) {
        double x = ra.at(i, j), y = ro->at(i, j);
        rt.at(i, j) = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? k * x : op == 4 ? -x : op == 5 ? x * rs.at(i, 0) : x * rs.at(j, 0);
    }
    same(*t, rt, "alias");
    if (t != &b) same(b, rb, "operand");
    if (t != &a) same(a, ra, "operand");
    a.destroy(); b.destroy(); s.destroy();
}
void c01_madd() {
    int w = v_choice("w", 0, 3), h = v_choice("h", 0, 3), op = v_choice("op", 0, 1), al = v_choice("alias", 0, 1);
    bool sw = v_choice("swap", 0, 1) == 1;
    Matrix a, b;
    Ref ra, rb, rt;
    symMatrix(a, ra, "a", w, h, sw); symMatrix(b, rb, "b", w, h);
    double s = v_real("s");
    Matrix &o = al ? a : b;
    Ref &ro = al ? ra : rb;
    if (op == 0) a.madd(o, s); else a.pmadd(o, s);
    rt.w = w; rt.h = h;
    for (int i = 0; i < w * h; ++i) rt.a[i] = op == 0 ? ra.a[i] + ro.a[i] * s : s * ra.a[i] + ro.a[i];
    same(a, rt, op == 0 ? "madd" : "pmadd");
    same(b, rb, "operand");
    a.destroy(); b.destroy();
}
void c01_vector() {
    int h = v_choice("h", 0, 5);
    bool s0 = v_choice("swapa", 0, 1) == 1, s1 = v_choice("swapb", 0, 1) == 1;
    Matrix a, b;
    Ref ra, rb;
    symMatrix(a, ra, "a", 1, h, s0); symMatrix(b, rb, "b", 1, h, s1);
    double d = 0, m = 0;
    for (int i = 0; i < h; ++i) { d += ra.a[i] * rb.a[i]; m += ra.a[i] * ra.a[i]; }
    v_eq(a.dot(b), d, "dot");
    v_eq(a.dot(a), m, "dot");
    v_eq(a.vectorMagnitudeSquared(), m, "magnitude");
    same(a, ra, "operand"); same(b, rb, "operand");
    a.destroy(); b.destroy();
}
void c01_equals() {
    int w = v_choice("w", 0, 2), h = v_choice("h", 0, 2), w2 = v_choice("w2", 0, 2), h2 = v_choice("h2", 0, 2), x = v_choice("special", 0, 3);
    Matrix a, b;
    Ref ra, rb;
    symMatrix(a, ra, "a", w, h); symMatrix(b, rb, "b", w2, h2);
    double err = v_real("err");
    if (x < w * h) { ra.a[x] = v_ext("x"); a.set(x % w, x / w, ra.a[x]); }
    bool eq = a.equals(b, err);
    if (w != w2 || h != h2) v_assert(!eq, "equals-shape");
    else {
        bool all = true, fin = true;
        for (int i = 0; i < w * h; ++i) {
            if (!v_isfinite(ra.a[i])) fin = false;
            double d = ra.a[i] - rb.a[i];
            if (!(d <= err && -d <= err)) all = false;
        }
        v_assert(!eq || all, "equals");
        if (fin) v_assert(eq || !all, "equals-complete");
    }
    same(a, ra, "operand"); same(b, rb, "operand");
    a.destroy(); b.destroy();
}
}
