// Shared harness helpers. Only the public interface of the library is used.
#pragma once
#include "v.h"
#include "scs.h"
#include <cmath>
#include <float.h>
#include <string.h>
using namespace atg_scs;

struct Ref {  // reference matrix: at(row, column)
    int w, h;
    double a[1024];
    double &at(int r, int c) { return a[r * w + c]; }
};
// matrix holding fresh symbols, possibly with physically swapped rows
static inline void symMatrix(Matrix &m, Ref &r, const char *nm, int w, int h, bool swap = false) {
    m.resize(w, h);
    r.w = w; r.h = h;
    for (int i = 0; i < h; ++i)
        for (int j = 0; j < w; ++j) { r.at(i, j) = v_realn(nm, i * w + j); m.set(j, i, r.at(i, j)); }
    if (swap && h > 1) {
        m.fastRowSwap(0, h - 1);
        for (int j = 0; j < w; ++j) { double t = r.at(0, j); r.at(0, j) = r.at(h - 1, j); r.at(h - 1, j) = t; }
    }
}
// put a target into some earlier state: 0 fresh, 1 used larger, 2 used smaller,
// 3 same shape with swapped rows, 4 destroyed after use
static inline void usedMatrix(Matrix &m, int pre, int w, int h) {
    if (pre == 0) return;
    int pw = w, ph = h;
    if (pre == 1) { pw = w + 1; ph = h + 2; }
    if (pre == 2) { pw = w > 1 ? w - 1 : w; ph = h > 1 ? h - 1 : 1; }
    m.resize(pw, ph);
    for (int i = 0; i < ph; ++i) for (int j = 0; j < pw; ++j) m.set(j, i, 77.0 + i * 8 + j);
    if (pre == 3 && ph > 1) m.fastRowSwap(0, ph - 1);
    if (pre == 4) m.destroy();
}
static inline void same(Matrix &m, Ref &r, const char *id) {
    v_assert(m.getWidth() == r.w, "width");
    v_assert(m.getHeight() == r.h, "height");
    for (int i = 0; i < r.h; ++i) for (int j = 0; j < r.w; ++j) v_eq(m.get(j, i), r.at(i, j), id);
}
