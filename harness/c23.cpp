// C23 registries
#include "con.h"
//@ bound every history of up to 6 (constraints, forces: 5; thorough: bodies 8 to 9) operations, add, remove and reset in any order over 3 elements of each kind; element counts beyond by one 40-element history and one with 300 elements of each kind; 33000, 40000 and 66000 bodies added and some removed
//@ entry c23_bodies need=index,count
//@ entry c23_bodies_reset need=index,count
//@ entry c23_constraints need=rows,count
//@ entry c23_forces need=applied,count
//@ entry c23_mixed need=index,count
//@ entry c23_reset need=empty
//@ entry c23_many need=index
//@ entry c23_huge need=index,removed
//@ entry c23_crowd need=index,count
//@ entry c23_bodies_deep thorough need=index
//@ entry c23_bodies_reset_deep thorough need=index
struct Mark : ForceGenerator {
    int hits = 0;
    void apply(SystemState *) override { ++hits; }
};
struct Plain : Constraint {
    int calls = 0;
    Plain(int rows, int bodies) : Constraint(rows, bodies) {}
    void calculate(Output *o, SystemState *) override {
        ++calls;
        for (int r = 0; r < 3; ++r) { o->C[r] = 0; o->v_bias[r] = 0; o->limits[r][0] = 0; o->limits[r][1] = 0; o->ks[r] = o->kd[r] = 0; for (int c = 0; c < 6; ++c) o->J[r][c] = o->J_dot[r][c] = 0; }
    }
};
struct NullSolver : SleSolver {
    NullSolver() : SleSolver(false) {}
    bool solve(SparseMatrix<3> &, Matrix &, Matrix &right, Matrix *, Matrix *res) override { res->initialize(1, right.getHeight()); return true; }
};
static void checkBodies(RigidBodySystem &sys, RigidBody *b, const bool *in, int n, const bool *wiped = nullptr) {
    int c = 0;
    for (int i = 0; i < n; ++i) {
        if (in[i]) { ++c; v_assert(b[i].index >= 0 && b[i].index < sys.getRigidBodyCount(), "index"); v_assert(sys.getRigidBody(b[i].index) == &b[i], "index"); }
        else if (!wiped || !wiped[i]) v_assert(b[i].index == -1, "removed");  // emptied by reset: nothing is promised about it
    }
    v_assert(sys.getRigidBodyCount() == c, "count");
    v_reach("index");
}
static void bodies(int ops, bool resets) {
    RigidBodySystem sys; RigidBody b[3]; bool in[3] = {}, wiped[3] = {};
    for (int o = 0; o < ops; ++o) {
        int k = v_choice("el", 0, resets ? 3 : 2);
        if (k == 3) {
            sys.reset();
            for (int i = 0; i < 3; ++i) { wiped[i] = wiped[i] || in[i]; in[i] = false; }
        } else {
            if (in[k]) sys.removeRigidBody(&b[k]); else sys.addRigidBody(&b[k]);
            in[k] = !in[k]; wiped[k] = false;
        }
        checkBodies(sys, b, in, 3, wiped);
    }
}
extern "C" {
void c23_bodies() { bodies(6, false); }
void c23_bodies_reset() { bodies(6, true); }
void c23_bodies_deep() { bodies(9, false); }
void c23_bodies_reset_deep() { bodies(8, true); }
void c23_constraints() {
    GenericRigidBodySystem sys; NullSolver ns; EulerOdeSolver eu;
    sys.initialize(&ns, &eu);
    RigidBody rb;
    rb.m = rb.I = 1;
    sys.addRigidBody(&rb);
    Plain c0(1, 1), c1(2, 1), c2(3, 1);
    Plain *c[3] = {&c0, &c1, &c2};
    for (int i = 0; i < 3; ++i) c[i]->m_bodies[0] = &rb;
    bool in[3] = {};
    const bool seldom = v_choice("seldom", 0, 1) == 1;  // look only at the end
    for (int o = 0; o < 5; ++o) {
        int k = v_choice("el", 0, 3);
        if (k == 3) {
            sys.reset();
            sys.addRigidBody(&rb);
            in[0] = in[1] = in[2] = false;
        } else {
            if (in[k]) sys.removeConstraint(c[k]); else sys.addConstraint(c[k]);
            in[k] = !in[k];
        }
        if (seldom && o % 2 == 1) continue;
        int n = 0, rows = 0;
        bool used[3] = {};
        for (int i = 0; i < 3; ++i) {
            if (!in[i]) continue;
            ++n; rows += i + 1;
        }
        for (int i = 0; i < 3; ++i)
            if (in[i]) {
                v_assert(c[i]->m_index >= 0 && c[i]->m_index < n, "index");
                v_assert(!used[c[i]->m_index], "index");
                used[c[i]->m_index] = true;
            }
        v_assert(sys.getConstraintCount() == n, "count");
        v_assert(sys.getFullConstraintCount() == rows, "rows");
    }
    for (int i = 0; i < 3; ++i) c[i]->calls = 0;
    sys.process(1.0, 1);
    for (int i = 0; i < 3; ++i) v_assert(c[i]->calls == (in[i] ? 1 : 0), "evaluated");
}
void c23_forces() {
    GenericRigidBodySystem sys; NullSolver ns; EulerOdeSolver eu;
    sys.initialize(&ns, &eu);
    Mark f[3]; bool in[3] = {};
    for (int o = 0; o < 5; ++o) {
        int k = v_choice("el", 0, 3), n = 0;
        if (k == 3) { sys.reset(); in[0] = in[1] = in[2] = false; }
        else {
            if (in[k]) sys.removeForceGenerator(&f[k]); else sys.addForceGenerator(&f[k]);
            in[k] = !in[k];
        }
        for (int i = 0; i < 3; ++i) if (in[i]) ++n;
        for (int i = 0; i < 3; ++i) if (in[i]) v_assert(f[i].m_index >= 0 && f[i].m_index < n, "index");
        v_assert(sys.getForceGeneratorCount() == n, "count");
        for (int i = 0; i < 3; ++i) f[i].hits = 0;
        sys.process(1.0, 1);
        for (int i = 0; i < 3; ++i) v_assert(f[i].hits == (in[i] ? 1 : 0), "applied");
    }
}
void c23_mixed() {
    OptimizedNsvRigidBodySystem sys;
    RigidBody b[2]; Plain c0(2, 1), c1(1, 2); Plain *c[2] = {&c0, &c1}; Mark f[2];
    bool in[6] = {};
    for (int o = 0; o < 4; ++o) {
        int k = v_choice("el", 0, 5), j = k / 2;
        if (k % 2 == 0 || true) {
            int w = k / 2, e = k % 2;
            bool now = in[k];
            if (w == 0) { if (now) sys.removeRigidBody(&b[e]); else sys.addRigidBody(&b[e]); }
            if (w == 1) { if (now) sys.removeConstraint(c[e]); else sys.addConstraint(c[e]); }
            if (w == 2) { if (now) sys.removeForceGenerator(&f[e]); else sys.addForceGenerator(&f[e]); }
            in[k] = !now;
        }
        (void)j;
        checkBodies(sys, b, in, 2);
        v_assert(sys.getConstraintCount() == in[2] + in[3], "count");
        v_assert(sys.getFullConstraintCount() == 2 * in[2] + in[3], "count");
        v_assert(sys.getForceGeneratorCount() == in[4] + in[5], "count");
    }
}
void c23_reset() {
    GenericRigidBodySystem sys; NullSolver ns; EulerOdeSolver eu;
    sys.initialize(&ns, &eu);
    RigidBody b[2]; Plain c(1, 1); Mark f;
    for (int r = 0; r < 2; ++r) {
        int nb = v_choice("nb", 0, 2);
        for (int i = 0; i < nb; ++i) { b[i].m = b[i].I = 1; sys.addRigidBody(&b[i]); v_assert(b[i].index == i, "index"); }
        bool hc = nb && v_choice("c", 0, 1);
        if (hc) { c.m_bodies[0] = &b[nb - 1]; sys.addConstraint(&c); v_assert(c.m_index == 0, "index"); }
        sys.addForceGenerator(&f); v_assert(f.m_index == 0, "index");
        if (v_choice("run", 0, 1)) sys.process(1.0, 1);
        sys.reset();
        v_assert(sys.getRigidBodyCount() == 0 && sys.getConstraintCount() == 0 && sys.getForceGeneratorCount() == 0 && sys.getFullConstraintCount() == 0, "empty");
        f.hits = 0;
        sys.process(1.0, 1);
        v_assert(f.hits == 0, "empty");
    }
}
void c23_crowd() {
    const int N = 300;
    RigidBodySystem sys; static RigidBody b[N]; static bool in[N];
    static Mark f[N]; static Plain *c[N];
    int first = v_choice("first", 0, 3), s = v_choice("step", 1, 3);
    for (int i = 0; i < N; ++i) { sys.addRigidBody(&b[i]); in[i] = true; sys.addForceGenerator(&f[i]); c[i] = new Plain(1 + i % 3, 1); c[i]->m_bodies[0] = &b[i]; sys.addConstraint(c[i]); }
    checkBodies(sys, b, in, N);
    v_assert(sys.getConstraintCount() == N && sys.getForceGeneratorCount() == N && sys.getFullConstraintCount() == 2 * N, "count");
    for (int i = 0; i < N; ++i) { v_assert(f[i].m_index == i, "index"); v_assert(c[i]->m_index == i, "index"); }
    int rows = 2 * N, gone = 0;
    static bool out[N];
    for (int i = 0; i < N; ++i) { in[i] = true; out[i] = false; }
    for (int k = first == 0 ? 0 : first == 1 ? N - 1 : first == 2 ? 255 : 256, i = 0; i < 6; ++i, k = (k + N + (first == 1 ? -s : s)) % N) {
        if (out[k]) continue;
        sys.removeRigidBody(&b[k]); in[k] = false;
        sys.removeConstraint(c[k]); sys.removeForceGenerator(&f[k]);
        out[k] = true; rows -= 1 + k % 3; ++gone;
    }
    checkBodies(sys, b, in, N);
    v_assert(sys.getConstraintCount() == N - gone && sys.getForceGeneratorCount() == N - gone && sys.getFullConstraintCount() == rows, "count");
    static bool used[2][N];
    for (int i = 0; i < N; ++i) used[0][i] = used[1][i] = false;
    for (int i = 0; i < N; ++i) if (!out[i]) {
        int p = c[i]->m_index, q = f[i].m_index;
        v_assert(p >= 0 && p < N - gone && q >= 0 && q < N - gone, "index");
        v_assert(!used[0][p] && !used[1][q], "index");
        used[0][p] = used[1][q] = true;
    }
    for (int i = 0; i < N; ++i) delete c[i];
}
void c23_many() {
    RigidBodySystem sys; RigidBody b[40]; bool in[40] = {};
    for (int i = 0; i < 40; ++i) { sys.addRigidBody(&b[i]); in[i] = true; }
    checkBodies(sys, b, in, 40);
    int s = v_choice("step", 1, 7);
    for (int i = 0, k = s; i < 25; ++i, k = (k + s * s + i) % 40) {
        while (!in[k]) k = (k + 1) % 40;
        sys.removeRigidBody(&b[k]); in[k] = false;
        if (i % 3 == 2) { int z = 0; while (in[z]) ++z; sys.addRigidBody(&b[z]); in[z] = true; }
        checkBodies(sys, b, in, 40);
    }
}
// tens of thousands of bodies
void c23_huge() {
    static const int SZ[3] = { 33000, 40000, 66000 };
    int n = SZ[v_choice("n", 0, 2)], m = n;
    RigidBodySystem sys; RigidBody *b = new RigidBody[n];
    for (int i = 0; i < n; ++i) sys.addRigidBody(&b[i]);
    v_assert(sys.getRigidBodyCount() == n, "count");
    static const int AT[6] = { 0, 255, 256, 32767, 32768, 32999 };
    int f = v_choice("first", 0, 5);
    for (int k = 0; k < 4; ++k) {
        RigidBody *x = &b[AT[(f + k * 5) % 6]];
        sys.removeRigidBody(x); --m;
        v_assert(x->index == -1, "removed");
        v_assert(sys.getRigidBodyCount() == m, "count");
    }
    v_reach("removed");
    for (int i = 0; i < n; ++i) {
        bool gone = false;
        for (int k = 0; k < 4; ++k) if (i == AT[(f + k * 5) % 6]) gone = true;
        if (gone) { v_assert(b[i].index == -1, "removed"); continue; }
        v_assert(b[i].index >= 0 && b[i].index < m, "index");
        v_assert(sys.getRigidBody(b[i].index) == &b[i], "index");
    }
    v_reach("index");
    sys.reset();
    delete[] b;
}
}
