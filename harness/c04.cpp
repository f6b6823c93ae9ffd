// C04 sparse matrix storage under any reuse history
#include "h.h"
//@ bound histories of 4 (thorough: 5) operations drawn from initialise, resize (followed by writing everything), block/value writes, emptying, destroy; heights 0..3, widths 3 and 6; strides 1 to 5 with 1 to 4 entries; all values symbolic; one storage of 400 rows, then shrunk to 130 and grown to 700, every entry distinct; storages of up to 33000 rows; memory already in use when a storage is built
//@ entry c04_h0
//@ entry c04_h1
//@ entry c04_h2
//@ entry c04_h3
//@ entry c04_h4
//@ entry c04_shapes need=value,blocks
//@ entry c04_dirty need=value,blocks
//@ entry c04_large need=value
//@ entry c04_l0 thorough
//@ entry c04_l1 thorough
//@ entry c04_l2 thorough
//@ entry c04_l3 thorough
//@ entry c04_l4 thorough

struct Model { int blocks, rows; bool known; int b[3][2]; double v[3][2][3]; };
static int g_fresh = 0;
static double fresh() { return v_realn("v", g_fresh++); }
static void apply(SparseMatrix<3> &m, Model &r, int op) {
    switch (op) {
    case 0: {
        int h = v_choice("h", 0, 3), w = v_choice("w", 1, 2);
        m.initialize(3 * w, h);
        r.blocks = w; r.rows = h; r.known = true;
        for (int i = 0; i < h; ++i) for (int j = 0; j < 2; ++j) { r.b[i][j] = -1; for (int k = 0; k < 3; ++k) r.v[i][j][k] = 0; }
        break; }
    case 1: {
        int h = v_choice("h", 0, 3), w = v_choice("w", 1, 2);
        bool keep = r.known && r.blocks == w && r.rows == h;
        m.resize(3 * w, h);
        r.blocks = w; r.rows = h;
        if (!keep) {
            r.known = true;
            for (int i = 0; i < h; ++i) for (int j = 0; j < 2; ++j) {
                int b = j < w ? j : -1;
                r.b[i][j] = b;
                if (b >= 0) { m.setBlock(i, j, b); for (int k = 0; k < 3; ++k) { r.v[i][j][k] = fresh(); m.set(i, j, k, r.v[i][j][k]); } }
                else { m.setEmpty(i, j); for (int k = 0; k < 3; ++k) r.v[i][j][k] = 0; }
            }
        }
        break; }
    case 2: {
        if (r.rows == 0) return;
        int i = v_choice("i", 0, r.rows - 1), j = v_choice("j", 0, 1), b = v_choice("b", 0, r.blocks - 1), k = v_choice("k", 0, 2);
        if (r.b[i][1 - j] == b) return;
        m.setBlock(i, j, b);
        r.b[i][j] = b;
        double x = fresh();
        m.set(i, j, k, x);
        r.v[i][j][k] = x;
        break; }
    case 3: {
        if (r.rows == 0) return;
        int i = v_choice("i", 0, r.rows - 1), j = v_choice("j", 0, 1);
        m.setEmpty(i, j);
        r.b[i][j] = -1;
        for (int k = 0; k < 3; ++k) r.v[i][j][k] = 0;
        break; }
    case 4:
        m.destroy();
        r.blocks = r.rows = 0; r.known = true;
        break;
    }
    if (op != 4 && r.rows) v_assert(m.getWidth() == 3 * r.blocks, "shape");
    v_assert(m.getHeight() == r.rows, "shape");
    for (int i = 0; i < r.rows; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 3; ++k) v_eq(m.get(i, j, k), r.v[i][j][k], "value");
}
static void history(int op0, int len) {
    g_fresh = 0;
    int base = v_live();
    {
        SparseMatrix<3> m;
        Model r;
        r.blocks = r.rows = 0; r.known = true;
        apply(m, r, op0);
        for (int k = 1; k < len; ++k) apply(m, r, v_choice("op", 0, 4));
        if (r.blocks && r.rows) {
            Matrix x;
            m.expand(&x);
            for (int i = 0; i < r.rows; ++i) for (int c = 0; c < 3 * r.blocks; ++c) {
                double want = 0;
                for (int j = 0; j < 2; ++j) if (r.b[i][j] == c / 3) want = r.v[i][j][c % 3];
                v_eq(x.get(c, i), want, "blocks");
            }
            x.destroy();
        }
        m.destroy();
        v_assert(m.getHeight() == 0, "destroyed-shape");
        m.initialize(3, 2);
        v_eq(m.get(1, 1, 2), 0, "reuse");
        m.destroy();
    }
    v_assert(v_live() == base, "released");
}
// other strides and entry counts: write, empty, grow, shrink
template <int S, int E> static void shape() {
    int base = v_live(), ini = v_choice("init", 0, 1), h0 = v_choice("h0", 0, 3), h1 = v_choice("h1", 1, 3), ei = v_choice("ei", 0, 2), ej = v_choice("ej", 0, E - 1);
    v_assume(ei < h1);
    {
        SparseMatrix<S, E> m;
        for (int st = 0; st < 2; ++st) {
            int h = st ? h1 : h0;
            if (ini || st == 0) m.initialize(S * (E + st), h); else m.resize(S * (E + st), h);
            v_assert(m.getHeight() == h && m.getWidth() == S * (E + st), "shape");
            if (ini || st == 0) for (int i = 0; i < h; ++i) for (int j = 0; j < E; ++j) for (int k = 0; k < S; ++k) v_eq(m.get(i, j, k), 0, "value");
            for (int i = 0; i < h; ++i) for (int j = 0; j < E; ++j) { m.setBlock(i, j, (i + j) % (E + st)); for (int k = 0; k < S; ++k) m.set(i, j, k, v_realn(st ? "y" : "x", (i * E + j) * S + k)); }
        }
        m.setEmpty(ei, ej);
        Matrix x;
        m.expand(&x);
        v_assert(x.getWidth() == S * (E + 1) && x.getHeight() == h1, "blocks");
        for (int i = 0; i < h1; ++i) for (int c = 0; c < S * (E + 1); ++c) {
            double want = 0;
            for (int j = 0; j < E; ++j) if ((i + j) % (E + 1) == c / S && !(i == ei && j == ej)) want = v_realn("y", (i * E + j) * S + c % S);
            v_eq(x.get(c, i), want, "blocks");
        }
        for (int i = 0; i < h1; ++i) for (int j = 0; j < E; ++j) for (int k = 0; k < S; ++k) v_eq(m.get(i, j, k), i == ei && j == ej ? 0 : v_realn("y", (i * E + j) * S + k), "value");
        x.destroy(); m.destroy();
    }
    v_assert(v_live() == base, "released");
}
extern "C" {
#define H(n) void c04_h##n() { history(n, 3); } void c04_l##n() { history(n, 4); }
H(0) H(1) H(2) H(3) H(4)
void c04_shapes() {
    switch (v_choice("shape", 0, 4)) {
    case 0: shape<3, 2>(); break;
    case 1: shape<3, 3>(); break;
    case 2: shape<2, 4>(); break;
    case 3: shape<5, 1>(); break;
    default: shape<1, 3>();
    }
}
// every entry of a large storage is its own
void c04_large() {
    static const int H[5] = {400, 130, 700, 50, 33000};
    int base = v_live(), first = v_choice("first", 0, 4), ini = v_choice("init", 0, 1);
    {
        SparseMatrix<3> m;
        double x = v_real("x"), y = v_real("y");
        for (int s = 0; s < 3; ++s) {
            if (first == 4 && s > 1) break;
            int h = first < 4 || s ? H[(first + s) % 4] : H[4], w = s == 1 ? 60 : 90;
            if (ini) m.initialize(w, h); else m.resize(w, h);
            v_assert(m.getHeight() == h && m.getWidth() == w, "shape");
            if (ini) for (int i = 0; i < h; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 3; ++k) v_eq(m.get(i, j, k), 0, "value");
            for (int i = 0; i < h; ++i) for (int j = 0; j < 2; ++j) {
                m.setBlock(i, j, (i + j) % (w / 3));
                for (int k = 0; k < 3; ++k) m.set(i, j, k, x + (6 * i + 3 * j + k + s) * y);
            }
            for (int i = 0; i < h; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 3; ++k) v_eq(m.get(i, j, k), x + (6 * i + 3 * j + k + s) * y, "value");
        }
        m.destroy();
    }
    v_assert(v_live() == base, "released");
}
// storage used before, then initialised (again): all of it is zero and empty
void c04_dirty() {
    static const int H[4] = {60, 400, 47, 4};
    int a = v_choice("a", 0, 3), b = v_choice("b", 0, 3), w = v_choice("w", 0, 1) ? 30 : 12;
    SparseMatrix<3> m;
    m.initialize(30, H[a]);
    for (int i = 0; i < H[a]; ++i) for (int j = 0; j < 2; ++j) { m.setBlock(i, j, (i + 3 * j) % 10); for (int k = 0; k < 3; ++k) m.set(i, j, k, v_realn("x", k) + i); }
    m.initialize(w, H[b]);
    for (int i = 0; i < H[b]; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 3; ++k) v_eq(m.get(i, j, k), 0, "value");
    Matrix x;
    for (int i = 0; i < H[b]; ++i) { m.set(i, 0, 1, 2.0); m.set(i, 1, 0, 3.0); if (i % 2) m.setBlock(i, i % 4 / 2, i % 4); }
    m.expand(&x);
    v_assert(x.getWidth() == w && x.getHeight() == H[b], "blocks");
    for (int i = 0; i < H[b]; ++i) for (int c = 0; c < w; ++c) v_eq(x.get(c, i), i % 2 == 0 || c / 3 != i % 4 ? 0 : i % 4 / 2 ? (c % 3 == 0) * 3.0 : (c % 3 == 1) * 2.0, "blocks");
    m.destroy(); x.destroy();
}
}
