// Native implementation of the harness interface: replays concrete points
// against the real code built with the real compiler.
//   native FILE          FILE: "CASE entry" / "name value" lines / "END"
// Output per case: "O id lhs rhs" observations, "X kind id detail" for a
// failure, "END index status".
#include "v.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <signal.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

struct In { char name[96]; double v; };
enum { MAX_IN = 200000, SLOTS = 1 << 19 };
static In gIn[MAX_IN];
static int gN = 0;
static int gSlot[SLOTS];  // hash table over gIn: position + 1
static In gOcc[257];
static int gOccN = 0;
static bool gAllow = false;
static long gLive = 0;
static long long gClock = 0;
static int gDeriv = 0, gDerivTarget = -1, gDerivFd = -1;
static const char *gEntry;
static void (*gFn)();
enum { RC_OK = 0, RC_VIOL = 10, RC_ASSUME = 11, RC_ABORT_OK = 12, RC_MEM = 13 };

static void fin(int rc) { fflush(stdout); _exit(rc); }
static unsigned hash(const char *n) {
    unsigned h = 2166136261u;
    for (; *n; ++n) h = (h ^ (unsigned char)*n) * 16777619u;
    return h % SLOTS;
}
static In *look(const char *n) {
    unsigned h = hash(n);
    for (; gSlot[h]; h = (h + 1) % SLOTS) if (!strcmp(gIn[gSlot[h] - 1].name, n)) return &gIn[gSlot[h] - 1];
    return nullptr;
}
static In *enter(const char *n, double v) {
    if (In *i = look(n)) return i;
    if (gN == MAX_IN) return nullptr;
    unsigned h = hash(n);
    while (gSlot[h]) h = (h + 1) % SLOTS;
    gSlot[h] = ++gN;
    snprintf(gIn[gN - 1].name, sizeof gIn[0].name, "%s", n);
    gIn[gN - 1].v = v;
    return &gIn[gN - 1];
}
static void forget() { if (gN) memset(gSlot, 0, sizeof gSlot); gN = 0; }
static void chk(const double &x, const char *id) {
#ifdef MSAN
    if (__msan_test_shadow(&x, sizeof x) >= 0) { printf("X uninit %s value\n", id); fin(RC_VIOL); }
#else
    (void)x; (void)id;
#endif
}
extern "C" {
double v_real(const char *n) { In *i = look(n); return i ? i->v : 0.0; }
double v_realn(const char *n, int k) { char b[96]; snprintf(b, sizeof b, "%s_%d", n, k); return v_real(b); }
double v_ext(const char *n) {
    char b[96]; snprintf(b, sizeof b, "%s#class", n);
    In *i = look(b);
    int k = i ? (int)i->v : 0;
    return k == 1 ? INFINITY : k == 2 ? -INFINITY : k == 3 ? NAN : v_real(n);
}
int v_int(const char *n0, int lo, int hi) {
    int k = 0;
    while (k < gOccN && strcmp(gOcc[k].name, n0)) ++k;
    if (k == gOccN && gOccN < 256) { snprintf(gOcc[k].name, sizeof gOcc[k].name, "%s", n0); gOcc[gOccN++].v = 0; }
    char n[160];
    snprintf(n, sizeof n, "%s.%d.%d.%d", n0, (int)gOcc[k].v, lo, hi);
    gOcc[k].v += 1;
    In *i = look(n);
    int x = i ? (int)std::lround(i->v) : lo;
    return x < lo ? lo : x > hi ? hi : x;
}
int v_conc(int x) { return x; }
void v_assume(bool c) { if (!c) fin(RC_ASSUME); }
void v_assert(bool c, const char *id) {
    if (gDerivTarget >= 0) return;
    if (!c) { printf("X assert %s\n", id); fin(RC_VIOL); }
}
static double tol(double a, double b) {
    double m = std::fmax(std::fabs(a), std::fabs(b));
    return 1e-8 * std::fmax(m, 1e-3);
}
void v_eq(double a, double b, const char *id) {
    if (gDerivTarget >= 0) return;
    chk(a, id); chk(b, id);
    printf("O %s %.17g %.17g\n", id, a, b);
    if ((std::isnan(a) && std::isnan(b)) || a == b) return;
    double t = tol(a, b);
    if (gDeriv) t = 1e-5 * std::fmax(std::fmax(std::fabs(a), std::fabs(b)), 1e-2);
    if (!(std::fabs(a - b) <= t)) { printf("X assert %s %.17g != %.17g\n", id, a, b); fin(RC_VIOL); }
}
void v_le(double a, double b, const char *id) {
    if (gDerivTarget >= 0) return;
    chk(a, id); chk(b, id);
    printf("O %s %.17g %.17g\n", id, a, b);
    if (!(a <= b || a - b <= tol(a, b))) { printf("X assert %s %.17g > %.17g\n", id, a, b); fin(RC_VIOL); }
}
void v_lt(double a, double b, const char *id) {
    if (gDerivTarget >= 0) return;
    chk(a, id); chk(b, id);
    printf("O %s %.17g %.17g\n", id, a, b);
    if (!(a < b)) { printf("X assert %s %.17g >= %.17g\n", id, a, b); fin(RC_VIOL); }
}
void v_observe(double x, const char *id) {
    if (gDerivTarget >= 0) return;
    chk(x, id);
    printf("O %s %.17g %.17g\n", id, x, x);
}
static double rerun(int target, const char *name, double delta) {
    int fd[2];
    if (pipe(fd)) return NAN;
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        close(fd[0]);
        In *i = look(name);
        if (!i) i = enter(name, 0);
        if (!i) _exit(1);
        i->v += delta;
        gDeriv = 0; gDerivTarget = target; gDerivFd = fd[1]; gClock = 0; gLive = 0; gOccN = 0;
        gFn();
        _exit(0);
    }
    close(fd[1]);
    double r = NAN;
    if (read(fd[0], &r, sizeof r) != (ssize_t)sizeof r) r = NAN;
    close(fd[0]);
    int st;
    waitpid(p, &st, 0);
    return r;
}
double v_deriv(double e, const char *name) {
    int me = gDeriv++;
    if (gDerivTarget == me) { if (write(gDerivFd, &e, sizeof e) < 0) _exit(1); _exit(0); }
    if (gDerivTarget >= 0) return 0;
    chk(e, "derivative");
    In *i = look(name);
    double x = i ? i->v : 0, h = 2e-3 * std::fmax(1.0, std::fabs(x));
    double d[3];
    for (int k = 0; k < 3; ++k) { double hh = h / (1 << k); d[k] = (rerun(me, name, hh) - rerun(me, name, -hh)) / (2 * hh); }
    double r1 = (4 * d[1] - d[0]) / 3, r2 = (4 * d[2] - d[1]) / 3;
    return (16 * r2 - r1) / 15;
}
bool v_isfinite(double x) { return std::isfinite(x); }
int v_live() { return (int)gLive; }
void v_allow_abort(int on) { gAllow = on; }
void v_reach(const char *) {}
void v_clock_advance(int us) { gClock += 1000LL * us; }
void v_poison(void *p, unsigned long n) {
#ifdef MSAN
    __msan_poison(p, n);
#else
    double g = 31337.4242;
    for (unsigned long i = 0; i < n; ++i) ((char *)p)[i] = ((char *)&g)[i & 7];
#endif
}
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(gClock)); }
} } }

// live-block counting with allocation-kind checking
struct Blk { void *p; int kind; };
static Blk *gTab; static size_t gCap = 0, gUsed = 0;
static void tabPut(void *p, int kind) {
    if (!gTab) { gCap = 1 << 18; gTab = (Blk *)calloc(gCap, sizeof(Blk)); }
    size_t i = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40;
    for (;; ++i) { Blk &b = gTab[i & (gCap - 1)]; if (!b.p || b.p == (void *)1 || b.p == p) { b.p = p; b.kind = kind; return; } }
}
static int tabTake(void *p) {
    if (!gTab) return -1;
    size_t i = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40;
    for (;; ++i) { Blk &b = gTab[i & (gCap - 1)]; if (b.p == p) { b.p = (void *)1; return b.kind; } if (!b.p) return -1; }
}
static void *doNew(size_t n, int kind) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    ++gLive;
    tabPut(p, kind);
    return p;
}
static void doDel(void *p, int kind) {
    if (!p) return;
    int k = tabTake(p);
    if (k >= 0 && k != kind) { printf("X memory dealloc-mismatch\n"); fin(RC_MEM); }
    --gLive;
    free(p);
}
void *operator new(size_t n) { return doNew(n, 0); }
void *operator new[](size_t n) { return doNew(n, 1); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return doNew(n, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return doNew(n, 1); }
void operator delete(void *p) noexcept { doDel(p, 0); }
void operator delete(void *p, size_t) noexcept { doDel(p, 0); }
void operator delete[](void *p) noexcept { doDel(p, 1); }
void operator delete[](void *p, size_t) noexcept { doDel(p, 1); }

static void onAbort(int) { fflush(stdout); _exit(gAllow ? RC_ABORT_OK : 14); }

int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    if (!f) return 2;
    static char line[1024], entry[256];
    int idx = 0;
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "CASE %255s", entry) == 1) { forget(); continue; }
        if (strncmp(line, "END", 3)) {
            char nm[96], val[64];
            if (sscanf(line, "%95s %63s", nm, val) == 2 ) enter(nm, strtod(val, nullptr));
            continue;
        }
        gEntry = entry;
        gFn = (void (*)())dlsym(RTLD_DEFAULT, entry);
        if (!gFn) { printf("END %d noentry\n", idx++); continue; }
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            signal(SIGABRT, onAbort);
            alarm(60);
            gFn();
            fin(RC_OK);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) printf("END %d signal-%d\n", idx++, WTERMSIG(st));
        else printf("END %d exit-%d\n", idx++, WEXITSTATUS(st));
        fflush(stdout);
    }
    return 0;
}
