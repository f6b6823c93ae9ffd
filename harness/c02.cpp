// C02 dense matrix storage under any reuse history
#include "h.h"
//@ bound histories of 3 (thorough: 4) operations drawn from initialise (both forms), resize, fill from array, copy, row swap, element write/accumulate, destroy; shapes (columns x rows) 1x3, 3x1, 2x2, 0x2, 1x1, 2x3; all values symbolic; construction by both constructors; larger shapes (70x1, 33x3, 3x40, 12x12 and back) in one history with row swaps, copies, fills and shape changes; 300x231, 1x40000 and 40000x2
//@ entry c02_h0 need=content
//@ entry c02_h1 need=content
//@ entry c02_h2 need=content
//@ entry c02_h3 need=content
//@ entry c02_h4 need=content
//@ entry c02_h5 need=content
//@ entry c02_h6
//@ entry c02_h7
//@ entry c02_l0 thorough
//@ entry c02_l1 thorough
//@ entry c02_l2 thorough
//@ entry c02_l3 thorough
//@ entry c02_l4 thorough
//@ entry c02_l5 thorough
//@ entry c02_l6 thorough
//@ entry c02_l7 thorough
//@ entry c02_fill_large
//@ entry c02_huge need=content
//@ entry c02_large need=content

static const int SW[] = {1, 3, 2, 0, 1, 2}, SH[] = {3, 1, 2, 2, 1, 3};
struct Model { int w, h; bool known; double a[16]; };
static int g_fresh = 0;
static double fresh() { return v_realn("v", g_fresh++); }

static void doOp(Matrix &m, Model &r, int op, bool first) {
    switch (op) {
    case 0: {  // initialise with value
        int s = v_choice("shape", 0, 5);
        double v = fresh();
        m.initialize(SW[s], SH[s], v);
        r.w = SW[s]; r.h = SH[s]; r.known = true;
        for (int i = 0; i < r.w * r.h; ++i) r.a[i] = v;
        break; }
    case 1: {
        int s = v_choice("shape", 0, 5);
        m.initialize(SW[s], SH[s]);
        r.w = SW[s]; r.h = SH[s]; r.known = true;
        for (int i = 0; i < r.w * r.h; ++i) r.a[i] = 0;
        break; }
    case 2: {  // resize, then write every element
        int s = v_choice("shape", 0, 5);
        bool keep = r.w == SW[s] && r.h == SH[s] && r.known;
        m.resize(SW[s], SH[s]);
        r.w = SW[s]; r.h = SH[s];
        if (!keep) {
            for (int i = 0; i < r.h; ++i) for (int j = 0; j < r.w; ++j) { r.a[i * r.w + j] = fresh(); m.set(j, i, r.a[i * r.w + j]); }
            r.known = true;
        }
        break; }
    case 3: {  // fill from array (row-major in logical order)
        double buf[16];
        for (int i = 0; i < r.w * r.h; ++i) buf[i] = r.a[i] = fresh();
        m.set(buf);
        r.known = true;
        break; }
    case 4: {  // copy from another matrix, itself possibly row-swapped
        int s = v_choice("shape", 0, 5);
        Matrix o;
        Ref ro;
        o.resize(SW[s], SH[s]);
        ro.w = SW[s]; ro.h = SH[s];
        for (int i = 0; i < ro.h; ++i) for (int j = 0; j < ro.w; ++j) { ro.at(i, j) = fresh(); o.set(j, i, ro.at(i, j)); }
        if (ro.h > 1) {
            o.fastRowSwap(0, 1);
            for (int j = 0; j < ro.w; ++j) { double t = ro.at(0, j); ro.at(0, j) = ro.at(1, j); ro.at(1, j) = t; }
        }
        m.set(&o);
        same(o, ro, "copy-source");
        r.w = ro.w; r.h = ro.h; r.known = true;
        for (int i = 0; i < r.w * r.h; ++i) r.a[i] = ro.a[i];
        o.destroy();
        break; }
    case 5: {  // row swap
        if (r.h < 2) return;
        int b = v_choice("row", 1, r.h), a = 0;
        if (b == r.h) { a = 1; b = r.h - 1; if (a == b) return; }
        m.fastRowSwap(a, b);
        if (r.known) for (int j = 0; j < r.w; ++j) { double t = r.a[a * r.w + j]; r.a[a * r.w + j] = r.a[b * r.w + j]; r.a[b * r.w + j] = t; }
        break; }
    case 6: {  // element write and accumulate
        if (r.w * r.h == 0 || !r.known) return;
        int i = v_choice("wr", 0, r.h - 1), j = v_choice("wc", 0, r.w - 1);
        double x = fresh(), y = fresh();
        m.set(j, i, x); m.add(j, i, y);
        r.a[i * r.w + j] = x + y;
        break; }
    case 7:
        m.destroy();
        r.w = r.h = 0; r.known = true;
        break;
    }
    v_assert(m.getWidth() == r.w && m.getHeight() == r.h, "shape");
    for (int i = 0; i < r.h; ++i) for (int j = 0; j < r.w; ++j) v_eq(m.get(j, i), r.a[i * r.w + j], "content");
    if (r.w == 1 && r.h > 0) {
        double s = 0;
        for (int i = 0; i < r.h; ++i) s += r.a[i] * r.a[i];
        v_eq(m.vectorMagnitudeSquared(), s, "magnitude");
        v_eq(m.dot(m), s, "dot");
    }
}
static void history(int op0, int len) {
    g_fresh = 0;
    int base = v_live();
    {
        Model r;
        r.w = r.h = 0; r.known = true;
        int ctor = op0 == 7 ? 0 : v_choice("ctor", 0, 1);
        double v = fresh();
        Matrix a, b(2, 2, v);
        if (ctor) { r.w = r.h = 2; for (int i = 0; i < 4; ++i) r.a[i] = v; }
        Matrix &m = ctor ? b : a;
        doOp(m, r, op0, true);
        for (int k = 1; k < len; ++k) doOp(m, r, v_choice("op", 0, 7), false);
        a.destroy(); b.destroy();
        v_assert(m.getWidth() == 0 && m.getHeight() == 0, "destroyed-shape");
        m.initialize(2, 1, v);
        v_eq(m.get(1, 0), v, "reuse");
        m.destroy();
    }
    v_assert(v_live() == base, "released");
}
extern "C" {
#define H(n) void c02_h##n() { history(n, 3); } void c02_l##n() { history(n, 4); }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7)
static void swapBoth(Matrix &m, Ref &r, int a, int b) {
    m.fastRowSwap(a, b);
    for (int j = 0; j < r.w; ++j) { double t = r.at(a, j); r.at(a, j) = r.at(b, j); r.at(b, j) = t; }
}
// rows in disorder everywhere (0), the outermost ones in place (1), the first one in place (2), none moved (3)
static void scramble(Matrix &m, Ref &r, int how) {
    int h = r.h;
    if (how == 1) { if (h > 3) swapBoth(m, r, 1, h - 2); if (h > 6) swapBoth(m, r, 3, h / 2); return; }
    if (how == 2) { swapBoth(m, r, 1, h - 1); return; }
    if (how == 3) return;
    swapBoth(m, r, 0, h - 1); swapBoth(m, r, 1, h / 2); swapBoth(m, r, h - 1, 1); swapBoth(m, r, h / 2, h / 2);
}
// larger shapes, one after the other in the same object
void c02_large() {
    static const int W[4] = {1, 3, 40, 12}, H[4] = {70, 33, 3, 12};
    static Ref r, o;
    static double buf[256];
    Matrix m, src;
    int sc = v_choice("scramble", 0, 3);
    for (int step = 0; step < 2; ++step) {
        int s = v_choice("shape", 0, 3), how = v_choice("how", 0, 3);
        r.w = W[s]; r.h = H[s];
        const char *nm = step ? "q" : "p";
        if (how == 0) {          // copy of a scrambled matrix
            symMatrix(src, o, nm, r.w, r.h);
            scramble(src, o, sc);
            m.set(&src);
            for (int i = 0; i < r.w * r.h; ++i) r.a[i] = o.a[i];
            same(src, o, "copy-source");
        } else if (how == 1) {   // filled from an array after row swaps
            m.resize(r.w, r.h);
            for (int i = 0; i < r.w * r.h; ++i) { int y = i / r.w; m.set(i % r.w, y, 3.0); r.a[i] = 3; }
            scramble(m, r, sc);
            for (int i = 0; i < r.w * r.h; ++i) r.a[i] = buf[i] = v_realn(nm, i);
            m.set(buf);
        } else if (how == 2) {   // one value
            double v = v_real(nm);
            m.initialize(r.w, r.h, v);
            for (int i = 0; i < r.w * r.h; ++i) r.a[i] = v;
        } else symMatrix(m, r, nm, r.w, r.h);
        scramble(m, r, sc);
        int k = r.w * r.h - 2;
        m.add(k % r.w, k / r.w, v_real("d")); r.a[k] += v_real("d");
        same(m, r, "content");
        if (r.w == 1) {
            double d = 0;
            for (int i = 0; i < r.h; ++i) d += r.a[i] * r.a[i];
            v_eq(m.vectorMagnitudeSquared(), d, "content");
        }
    }
    m.destroy(); src.destroy();
}
// tens of thousands of elements, rows or columns: every one of them its own
void c02_huge() {
    static const int W[3] = {300, 1, 40000}, H[3] = {231, 40000, 2};
    int s = v_choice("shape", 0, 2), how = v_choice("how", 0, 2), w = W[s], h = H[s], base = v_live();
    double x = v_real("x"), y = v_real("y");
    {
        Matrix m(3, 2, 7.0), c;
        if (how == 2) m.initialize(w, h); else m.resize(w, h);
        v_assert(m.getWidth() == w && m.getHeight() == h, "shape");
        for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) m.set(j, i, x + (i * w + j) * y);
        m.fastRowSwap(0, h - 1); m.fastRowSwap(h / 2, h - 1);
        if (how == 1) { c.set(&m); m.initialize(2, 2, 5.0); }
        Matrix &r = how == 1 ? c : m;
        v_assert(r.getWidth() == w && r.getHeight() == h, "shape");
        for (int i = 0; i < h; ++i) {
            int k = i == 0 ? h - 1 : i;  // logical row i holds the row written as k
            if (i == h - 1) k = h / 2;
            if (i == h / 2) k = 0;
            for (int j = 0; j < w; ++j) v_eq(r.get(j, i), x + (k * w + j) * y, "content");
        }
        m.destroy(); c.destroy();
    }
    v_assert(v_live() == base, "released");
}
void c02_fill_large() {
    int w = v_choice("w", 1, 40), h = 37;
    Matrix m;
    double v = v_real("v");
    m.initialize(w, h, v);
    m.initialize(w, h);
    double s = 0;
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) s += m.get(j, i) * m.get(j, i);
    v_eq(s, 0, "zeroed");
    m.initialize(h, w, v);
    for (int i = 0; i < w; ++i) { v_eq(m.get(h - 1, i), v, "valued"); v_eq(m.get(0, i), v, "valued"); }
    m.destroy();
}
}
