// Helpers for harnesses over SystemState.
#pragma once
#include "h.h"
#define N_BODY_ARR 13
static inline double *bodyArr(SystemState &s, int k) {
    switch (k) {
        case 0: return s.a_theta; case 1: return s.v_theta; case 2: return s.theta;
        case 3: return s.a_x; case 4: return s.a_y; case 5: return s.v_x; case 6: return s.v_y;
        case 7: return s.p_x; case 8: return s.p_y; case 9: return s.f_x; case 10: return s.f_y;
        case 11: return s.t; default: return s.m;
    }
}
static inline double *reactArr(SystemState &s, int k) { return k == 0 ? s.r_x : k == 1 ? s.r_y : s.r_t; }
enum { A_T, V_T, TH, A_X, A_Y, V_X, V_Y, P_X, P_Y, F_X, F_Y, TQ, MS };
template <int B, int C> struct SnapT { int n, nc; double b[N_BODY_ARR][B], r[3][2 * C]; int ix[C]; };
typedef SnapT<8, 8> Snap;
typedef SnapT<300, 200> SnapBig;
static inline const char *nameOf(const char *tag, int k) {
    static char buf[64][32];
    static int u = 0;
    char *o = buf[u++ & 63];
    int i = 0;
    while (tag[i]) { o[i] = tag[i]; ++i; }
    o[i++] = (char)('a' + k); o[i] = 0;
    return o;
}
// fill every array with fresh symbols and remember them
template <class Q> static inline void symState(SystemState &s, Q &q, const char *tag, int n, int nc) {
    s.resize(n, nc);
    q.n = n; q.nc = nc;
    for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < n; ++i) bodyArr(s, k)[i] = q.b[k][i] = v_realn(nameOf(tag, k), i);
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) reactArr(s, k)[i] = q.r[k][i] = v_realn(nameOf(tag, 16 + k), i);
    for (int i = 0; i < nc; ++i) s.indexMap[i] = q.ix[i] = 10 + i;
}
template <class Q> static inline void take(SystemState &s, Q &q, int n, int nc) {
    q.n = n; q.nc = nc;
    for (int k = 0; k < N_BODY_ARR; ++k) for (int i = 0; i < n; ++i) q.b[k][i] = bodyArr(s, k)[i];
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * nc; ++i) q.r[k][i] = reactArr(s, k)[i];
    for (int i = 0; i < nc; ++i) q.ix[i] = s.indexMap[i];
}
// compare, except for the body arrays whose bit is set in skip
template <class Q> static inline void sameState(SystemState &s, Q &q, const char *id, int skip = 0) {
    for (int k = 0; k < N_BODY_ARR; ++k) if (!(skip >> k & 1)) for (int i = 0; i < q.n; ++i) v_eq(bodyArr(s, k)[i], q.b[k][i], id);
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 2 * q.nc; ++i) v_eq(reactArr(s, k)[i], q.r[k][i], id);
    for (int i = 0; i < q.nc; ++i) v_assert(s.indexMap[i] == q.ix[i], id);
}
