// Harness interface. Implemented twice: by the symbolic executor (where the
// inputs are symbolic and the assertions are decided by the solver) and by
// v_native.cpp (where a concrete point is replayed against the real build).
#pragma once
extern "C" {
double v_real(const char *name);              // any finite real
double v_realn(const char *name, int i);      // "name_i"
double v_ext(const char *name);               // any finite real, +inf, -inf or NaN
int v_int(const char *name, int lo, int hi);  // any integer in [lo, hi]
int v_conc(int x);                            // case split to a concrete value
void v_assume(bool c);
void v_assert(bool c, const char *id);
void v_eq(double a, double b, const char *id);
void v_le(double a, double b, const char *id);
void v_lt(double a, double b, const char *id);
void v_observe(double x, const char *id);
double v_deriv(double e, const char *input);  // d e / d input
bool v_isfinite(double x);
int v_live();                                 // live heap blocks
void v_allow_abort(int on);                   // assert() in the code counts as fail-stop
void v_reach(const char *id);
void v_clock_advance(int us);                 // std::chrono::steady_clock stand-in
void v_poison(void *p, unsigned long n);      // forget the contents of storage
}
static inline int v_choice(const char *name, int lo, int hi) { return v_conc(v_int(name, lo, hi)); }
static inline double v_pos(const char *name) { double x = v_real(name); v_assume(x > 0); return x; }
static inline double v_posn(const char *name, int i) { double x = v_realn(name, i); v_assume(x > 0); return x; }
