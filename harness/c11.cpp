// C11 SystemState copy / resize / destroy
#include "st.h"
//@ bound 0..2 bodies and 0..2 rows per state (0..3 in the thorough tier), destinations with up to two earlier operations (resize, copy, destroy) of every size; contents arbitrary reals; also 40 to 45 bodies with 60 to 70 rows, 100 to 300 bodies with up to 200 rows, and copies of 40000 and 66000 bodies or rows
//@ entry c11_copy need=copied,source-untouched
//@ entry c11_resize need=room,released
//@ entry c11_self need=copied
//@ entry c11_large need=copied,room,released
//@ entry c11_hundreds need=copied,released
//@ entry c11_huge need=copied,released
//@ entry c11_copy_deep thorough need=copied
static void pre(SystemState &d, const char *nm, int hi) {
    int op = v_choice(nm, 0, 3);
    if (op == 0) return;
    if (op == 3) { d.destroy(); return; }
    int n = v_choice("pn", 0, hi), nc = v_choice("pc", 0, hi);
    if (op == 1) {
        d.resize(n, nc);
        for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < n; ++i) bodyArr(d, k)[i] = 5.5;
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) reactArr(d, k)[i] = 6.5;
        for (int i = 0; i < nc; ++i) d.indexMap[i] = 3;
    } else {
        SystemState c; Snap q;
        symState(c, q, "c", n, nc);
        d.copy(&c);
        c.destroy();
    }
}
static void copyCase(int ops, int hi) {
    int live = v_live();
    {
        SystemState d, s; Snap q;
        for (int i = 0; i < ops; ++i) pre(d, "op", hi);
        int n = v_choice("n", 0, hi), nc = v_choice("nc", 0, hi);
        if (n || nc || v_choice("sized", 0, 1)) symState(s, q, "s", n, nc);
        else { q.n = q.nc = 0; }
        d.copy(&s);
        v_assert(d.n == n && d.n_c == nc, "counts");
        sameState(d, q, "copied");
        v_reach("copied");
        v_assert(s.n == n && s.n_c == nc, "source-untouched");
        sameState(s, q, "source-untouched");
        v_reach("source-untouched");
        // the two are separate: writing one leaves the other
        for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < n; ++i) bodyArr(d, k)[i] = 1.25;
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) reactArr(d, k)[i] = 2.25;
        for (int i = 0; i < nc; ++i) d.indexMap[i] = 77;
        sameState(s, q, "separate");
        d.destroy(); s.destroy();
    }
    v_assert(v_live() == live, "released");
}
extern "C" {
void c11_copy() { copyCase(1, 2); }
void c11_copy_deep() { copyCase(2, 2); }
void c11_resize() {
    int live = v_live();
    {
        SystemState d;
        pre(d, "op", 2); pre(d, "op", 1);
        int n = v_choice("n", 0, 3), nc = v_choice("nc", 0, 3);
        d.resize(n, nc);
        v_assert(d.n >= n && d.n_c >= nc, "room");
        for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < d.n; ++i) bodyArr(d, k)[i] = 100 * k + i;
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * d.n_c; ++i) reactArr(d, k)[i] = 2000 + 100 * k + i;
        for (int i = 0; i < d.n_c; ++i) d.indexMap[i] = i;
        for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < d.n; ++i) v_eq(bodyArr(d, k)[i], 100 * k + i, "room");
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * d.n_c; ++i) v_eq(reactArr(d, k)[i], 2000 + 100 * k + i, "room");
        for (int i = 0; i < d.n_c; ++i) v_assert(d.indexMap[i] == i, "room");
        d.destroy();
        v_assert(d.n == 0 && d.n_c == 0, "emptied");
        if (v_choice("again", 0, 1)) { d.resize(1, 1); d.a_x[0] = 1; d.r_t[1] = 2; d.destroy(); }
        d.destroy();
    }
    v_assert(v_live() == live, "released");
}
// large states: grown, shrunk, copied
void c11_large() {
    int live = v_live();
    {
        SystemState a, b, c; SnapBig q; Snap r;
        symState(a, q, "a", v_choice("n", 40, 41), v_choice("nc", 69, 70));
        b.resize(v_choice("n2", 0, 2) * 20 + 2, v_choice("nc2", 0, 1) * 60 + 1);
        b.copy(&a);
        sameState(b, q, "copied"); sameState(a, q, "copied");
        v_assert(b.n == q.n && b.n_c == q.nc, "counts");
        symState(c, r, "c", 3, 2);
        b.copy(&c);
        sameState(b, r, "copied");
        v_assert(b.n == 3 && b.n_c == 2, "counts");
        b.copy(&a);
        sameState(b, q, "copied");
        v_reach("copied");
        int n = v_choice("n3", 3, 4) * 15, nc = v_choice("nc3", 3, 4) * 23;
        b.resize(n, nc);
        v_assert(b.n >= n && b.n_c >= nc, "room");
        for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < n; ++i) bodyArr(b, k)[i] = 100 * k + i;
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) reactArr(b, k)[i] = 2000 + 100 * k + i;
        for (int i = 0; i < nc; ++i) b.indexMap[i] = i;
        for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < n; ++i) v_eq(bodyArr(b, k)[i], 100 * k + i, "room");
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) v_eq(reactArr(b, k)[i], 2000 + 100 * k + i, "room");
        for (int i = 0; i < nc; ++i) v_assert(b.indexMap[i] == i, "room");
        a.destroy(); b.destroy(); c.destroy();
    }
    v_assert(v_live() == live, "released");
    v_reach("released");
}
// copying forth and back through a third state of another size
void c11_self() {
    int live = v_live();
    {
        SystemState a, b; Snap q;
        symState(a, q, "a", v_choice("n", 0, 2), v_choice("nc", 0, 2));
        b.resize(v_choice("n2", 0, 3), v_choice("nc2", 0, 3));
        b.copy(&a);
        SystemState c; Snap r;
        symState(c, r, "c", v_choice("n3", 0, 2), 1);
        a.copy(&c);
        a.copy(&b);
        sameState(a, q, "copied");
        v_reach("copied");
        v_assert(a.n == q.n && a.n_c == q.nc, "counts");
        a.destroy(); b.destroy(); c.destroy();
    }
    v_assert(v_live() == live, "released");
}
void c11_hundreds() {
    int live = v_live();
    {
        SystemState a, b, c; static SnapBig q, r;
        static const int N[5] = { 100, 129, 257, 300, 1 }, C[5] = { 200, 129, 150, 0, 200 };
        int k = v_choice("size", 0, 4), l = v_choice("then", 0, 4);
        symState(a, q, "a", N[k], C[k]);
        symState(c, r, "c", N[l], C[l]);
        b.copy(&a);
        sameState(b, q, "copied");
        v_assert(b.n == q.n && b.n_c == q.nc, "counts");
        b.copy(&c);
        sameState(b, r, "copied");
        v_assert(b.n == r.n && b.n_c == r.nc, "counts");
        sameState(a, q, "copied"); sameState(c, r, "copied");
        v_reach("copied");
        a.destroy(); b.destroy(); c.destroy();
    }
    v_assert(v_live() == live, "released");
    v_reach("released");
}
// a symbol in every array at the ends and around the widths of small integers
void c11_huge() {
    int live = v_live();
    {
        SystemState a, b;
        int big = v_choice("more", 0, 1) ? 66000 : 40000;
        bool rows = v_choice("rows", 0, 1);
        int n = rows ? 3 : big, nc = rows ? big : 2;
        a.resize(n, nc);
        const int at[6] = { 0, 255, 256, 32767, 32768, big - 1 };
        // every cell has a value, a few an arbitrary one
        for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < n; ++i) bodyArr(a, k)[i] = i;
        for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) reactArr(a, k)[i] = i;
        for (int i = 0; i < nc; ++i) a.indexMap[i] = i;
        if (!rows) { for (int k = 0; k < N_BODY_ARR; ++k) for (int j = 0; j < 6; ++j) bodyArr(a, k)[at[j]] = v_realn(nameOf("a", k), at[j]); }
        else for (int k = 0; k < 3; ++k) for (int j = 0; j < 6; ++j) { reactArr(a, k)[at[j]] = v_realn(nameOf("a", k), at[j]); reactArr(a, k)[at[j] + nc] = v_realn(nameOf("b", k), at[j]); }
        b.copy(&a);
        v_assert(b.n == n && b.n_c == nc, "counts");
        for (int k = 0; k < N_BODY_ARR; ++k) {
            for (int i = 0; i < n; i += i < n - 301 ? 300 : 1) v_eq(bodyArr(b, k)[i], bodyArr(a, k)[i], "copied");
            if (!rows) for (int j = 0; j < 6; ++j) v_eq(bodyArr(b, k)[at[j]], v_realn(nameOf("a", k), at[j]), "copied");
        }
        for (int k = 0; k < 3; ++k) {
            for (int i = 0; i < 2 * nc; i += i < 2 * nc - 301 ? 300 : 1) v_eq(reactArr(b, k)[i], reactArr(a, k)[i], "copied");
            if (rows) for (int j = 0; j < 6; ++j) { v_eq(reactArr(b, k)[at[j]], v_realn(nameOf("a", k), at[j]), "copied"); v_eq(reactArr(b, k)[at[j] + nc], v_realn(nameOf("b", k), at[j]), "copied"); }
        }
        for (int i = 0; i < nc; ++i) v_assert(b.indexMap[i] == i, "copied");
        v_reach("copied");
        a.destroy(); b.destroy();
    }
    v_assert(v_live() == live, "released");
    v_reach("released");
}
}
