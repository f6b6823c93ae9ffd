// C33 lifecycle
#include "world.h"
//@ bound every system x integrator x solver; sequences of up to 4 steps with the population (0 to 3 bodies, 0 to 3 constraints of 1 to 3 rows, every constraint type) changed in between; never stepped, empty and constraint-free systems; physical values concrete, pre-existing memory arbitrary (uninitialised reads are detected); clean-up by a count of live heap blocks and the destructors' own checks; populations of 2, 24, 1 and 17 bodies and constraints following each other
//@ entry c33_mixes need=released
//@ entry c33_population need=released
//@ entry c33_never need=released
//@ entry c33_types need=released branch-ms=300
//@ entry c33_cg need=released
//@ entry c33_symbolic need=released
//@ entry c33_states need=released
//@ entry c33_crowd need=released
//@ entry c33_deep thorough need=released
struct Solvers {
    GaussianEliminationSleSolver ge; GaussSeidelSleSolver gs; ConjugateGradientSleSolver cg;
    SleSolver *get(int k) { return k == 0 ? (SleSolver *)&ge : k == 1 ? (SleSolver *)&gs : (SleSolver *)&cg; }
};
static void init(RigidBody &b, int i) { b.m = 1 + i; b.I = 2; b.p_x = i; b.p_y = 1; b.theta = 0; b.v_x = 1; b.v_y = i; b.v_theta = 2; }
struct Simple : Constraint {  // decoupled well-conditioned rows
    int base;
    Simple(int rows, int bodies, int b) : Constraint(rows, bodies), base(b) {}
    void calculate(Output *o, SystemState *s) override {
        *o = Output();
        for (int r = 0; r < m_constraintCount; ++r) {
            o->J[r][(base + r) % 3] = 1; o->limits[r][0] = -DBL_MAX; o->limits[r][1] = DBL_MAX;
            if (m_bodyCount == 2) o->J[r][3 + (base + r) % 3] = -1;
            o->ks[r] = 1; o->kd[r] = 1; o->C[r] = 0; (void)s;
        }
    }
};
extern "C" {
void c33_mixes() {
    int before = v_live();
    {
        int kind = v_choice("kind", GEN_EULER, NSV_SYS), so = v_choice("solver", 0, 2), nb = v_choice("bodies", 0, 3), nc = v_choice("cons", 0, 2), steps = v_choice("steps", 0, 2);
        Solvers s;
        Machine mc(kind, s.get(so));
        RigidBody rb[3]; Simple c0(3, 1, 0), c1(1, 2, 1); Constraint *c[2] = {&c0, &c1}; GravityForceGenerator g;
        v_assume(nb > 0 || nc == 0); v_assume(nb > 1 || nc < 2);
        for (int i = 0; i < nb; ++i) { init(rb[i], i); mc.sys().addRigidBody(&rb[i]); }
        c0.m_bodies[0] = &rb[0]; c1.m_bodies[0] = &rb[1]; c1.m_bodies[1] = nb > 2 ? &rb[2] : &rb[0];
        for (int i = 0; i < nc; ++i) mc.sys().addConstraint(c[i]);
        if (v_choice("gravity", 0, 1)) mc.sys().addForceGenerator(&g);
        for (int i = 0; i < steps; ++i) mc.sys().process(0.125, 1 + i);
        // every result is a number
        for (int i = 0; i < nb; ++i) { v_observe(rb[i].p_x, "number"); v_observe(rb[i].v_theta, "number"); }
        for (int i = 0; i < nc; ++i) for (int r = 0; r < 3; ++r) for (int k = 0; k < 2; ++k) { v_observe(c[i]->F_x[r][k], "number"); v_observe(c[i]->F_t[r][k], "number"); }
    }
    v_assert(v_live() == before, "released");
}
static void population(int ops) {
    int before = v_live();
    {
        int kind = v_choice("kind", GEN_EULER, NSV_SYS);
        FuncSolver fs(true); 
        GaussianEliminationSleSolver ge;
        Machine mc(kind, v_choice("real", 0, 1) ? (SleSolver *)&ge : (SleSolver *)&fs);
        RigidBody rb[3]; bool inB[3] = {}; Simple c0(3, 1, 0), c1(1, 1, 0), c2(2, 1, 1); Simple *c[3] = {&c0, &c1, &c2}; bool inC[3] = {};
        for (int i = 0; i < 3; ++i) { init(rb[i], i); c[i]->m_bodies[0] = &rb[i]; }
        for (int o = 0; o < ops; ++o) {
            int k = v_choice("op", 0, 3);
            if (k == 3) {
                for (int i = 0; i < 3; ++i) if (inC[i]) { mc.sys().removeConstraint(c[i]); inC[i] = false; }
                for (int i = 0; i < 3; ++i) if (inB[i]) { mc.sys().removeRigidBody(&rb[i]); inB[i] = false; }
            } else if (!inB[k]) {
                mc.sys().addRigidBody(&rb[k]); inB[k] = true;
                mc.sys().addConstraint(c[k]); inC[k] = true;
            } else if (inC[k]) { mc.sys().removeConstraint(c[k]); inC[k] = false; }
            else { mc.sys().removeRigidBody(&rb[k]); inB[k] = false; }
            mc.sys().process(0.25, 1);
            for (int i = 0; i < 3; ++i) { v_observe(rb[i].v_x, "number"); v_observe(rb[i].p_y, "number"); v_observe(c[i]->F_x[0][0], "number"); }
        }
        if (v_choice("reset", 0, 1)) { mc.sys().reset(); mc.sys().process(1, 1); }
    }
    v_assert(v_live() == before, "released");
}
void c33_population() { population(4); }
void c33_deep() { population(6); }
void c33_never() {
    int before = v_live();
    {
        int what = v_choice("what", 0, 10);
        Solvers s;
        if (what == 0) { GenericRigidBodySystem g; }
        if (what == 1) { OptimizedNsvRigidBodySystem n; }
        if (what == 2) { GenericRigidBodySystem g; EulerOdeSolver e; g.initialize(s.get(v_choice("solver", 0, 2)), &e); }
        if (what == 3) { OptimizedNsvRigidBodySystem n; n.initialize(s.get(v_choice("solver", 0, 2))); }
        if (what == 4) { RigidBodySystem b; b.process(1, 1); b.reset(); }
        if (what == 5) { SystemState st; st.destroy(); }
        if (what == 6) { Rk4OdeSolver r; }
        if (what == 7) { Matrix m; SparseMatrix<3> sp; m.destroy(); sp.destroy(); }
        if (what == 8) { GenericRigidBodySystem g; Rk4OdeSolver e; g.initialize(s.get(v_choice("solver", 0, 2)), &e); g.process(1, 1); g.process(1, 2); }
        if (what == 9) { OptimizedNsvRigidBodySystem n; n.initialize(s.get(v_choice("solver", 0, 2))); n.process(1, 1); n.process(1, 3); }
        if (what == 10) { GenericRigidBodySystem g; Rk4OdeSolver e; RigidBody b; init(b, 0); g.initialize(s.get(0), &e); g.initialize(s.get(1), &e); g.addRigidBody(&b); g.reset(); g.initialize(s.get(2), &e); g.process(1, 1); }
    }
    v_assert(v_live() == before, "released");
}
// every constraint and force type in both systems
void c33_types() {
    int before = v_live();
    {
        int k = v_choice("type", 0, N_CON - 1), kind = v_choice("kind", GEN_EULER, NSV_SYS);
        FuncSolver fs(kind == NSV_SYS); GaussianEliminationSleSolver ge;
        bool real = v_choice("real", 0, 1);
        Machine mc(kind, real ? (SleSolver *)&ge : (SleSolver *)&fs);
        v_assume(!real || kind != GEN_RK4);
        RigidBody rb[2]; Cons cs;
        for (int i = 0; i < 2; ++i) { init(rb[i], i); mc.sys().addRigidBody(&rb[i]); }
        int sl = v_choice("slot", 0, 1);
        cs.bodies(k, &rb[sl], &rb[1 - sl]);
        cs.ro.m_dx = 1; cs.ro.m_dy = 0; cs.ro.m_radius = 1; cs.ro.m_local_x = cs.ro.m_local_y = 0;
        cs.li.m_dx = 1; cs.li.m_dy = 0; cs.ge.m_ratio = 2;
        mc.sys().addConstraint(&cs.get(k));
        Spring sp; sp.m_body1 = &rb[0]; sp.m_body2 = &rb[1]; sp.m_ks = 2; ConstantSpeedMotor mo; mo.m_body0 = &rb[0]; mo.m_body1 = &rb[1]; StaticForceGenerator sf; sf.m_body = &rb[1]; sf.setForce(1, 2);
        if (kind != GEN_RK4) mc.sys().addForceGenerator(&sp); mc.sys().addForceGenerator(&mo); mc.sys().addForceGenerator(&sf);
        mc.sys().process(0.125, 1);
        if (!real && kind != GEN_RK4) { mc.sys().removeForceGenerator(&sp); mc.sys().process(0.125, 2); }
        for (int i = 0; i < 2; ++i) { v_observe(rb[i].v_x, "number"); v_observe(rb[i].theta, "number"); }
        for (int r = 0; r < 3; ++r) for (int b = 0; b < 2; ++b) { v_observe(cs.get(k).F_x[r][b], "number"); v_observe(cs.get(k).F_y[r][b], "number"); v_observe(cs.get(k).F_t[r][b], "number"); }
        if (v_choice("remove", 0, 1)) { if (sp.m_index != -1) mc.sys().removeForceGenerator(&sp); mc.sys().removeConstraint(&cs.get(k)); mc.sys().process(0.125, 1); }
    }
    v_assert(v_live() == before, "released");
}
// one conjugate-gradient or Gauss-Seidel solver serving systems of changing size
void c33_cg() {
    int before = v_live();
    {
        Solvers s;
        int so = v_choice("solver", 0, 2);
        for (int k = 0; k < 2; ++k) {
            int kind = v_choice("kind", GEN_EULER, NSV_SYS), nc = v_choice("cons", 0, 3);
            Machine mc(kind, s.get(so));
            RigidBody rb[3]; Simple c0(1, 1, 0), c1(2, 1, 1), c2(3, 1, 0); Simple *c[3] = {&c0, &c1, &c2};
            for (int i = 0; i < 3; ++i) { init(rb[i], i); mc.sys().addRigidBody(&rb[i]); c[i]->m_bodies[0] = &rb[i]; }
            for (int i = 0; i < nc; ++i) mc.sys().addConstraint(c[i]);
            mc.sys().process(0.5, 1);
            for (int i = 0; i < nc; ++i) { mc.sys().removeConstraint(c[i]); mc.sys().process(0.5, 1); }
        }
    }
    v_assert(v_live() == before, "released");
}
// whatever the values: no access outside live storage, no dependence on stale memory
void c33_symbolic() {
    int before = v_live();
    {
        int kind = v_choice("kind", GEN_EULER, NSV_SYS);
        AnySolver as(kind == NSV_SYS && v_choice("limited", 0, 1));
        Machine mc(kind, &as);
        RigidBody rb[3]; B6 q; AnyRow c0(0, 1, 2), c1(1, 3, 1), c2(2, 2, 2); AnyRow *c[3] = {&c0, &c1, &c2}; AnyForce f(0, 2);
        for (int i = 0; i < 3; ++i) { symBody(rb[i], q, i, true); }
        mc.n.m_biasFactor = v_real("beta");
        int first = v_choice("first", 1, 3), second = v_choice("second", 0, 3);
        mc.sys().addRigidBody(&rb[0]); mc.sys().addRigidBody(&rb[1]); mc.sys().addForceGenerator(&f);
        c0.m_bodies[0] = &rb[1]; c0.m_bodies[1] = &rb[0]; c1.m_bodies[0] = &rb[1]; c2.m_bodies[0] = &rb[0]; c2.m_bodies[1] = &rb[1];
        for (int i = 0; i < first; ++i) mc.sys().addConstraint(c[i]);
        mc.sys().process(1, 1);
        for (int i = 0; i < first; ++i) if (i >= second) mc.sys().removeConstraint(c[i]);
        if (v_choice("grow", 0, 1)) mc.sys().addRigidBody(&rb[2]);
        mc.sys().process(1, 1);
        for (int i = 0; i < 3; ++i) { v_observe(rb[i].p_x, "number"); v_observe(rb[i].v_y, "number"); v_observe(rb[i].theta, "number"); }
        for (int i = 0; i < first && i < second; ++i) for (int r = 0; r < 3; ++r) for (int b = 0; b < 2; ++b) v_observe(c[i]->F_x[r][b], "number");
    }
    v_assert(v_live() == before, "released");
}
// states copied and resized in any order give everything back
void c33_states() {
    int before = v_live();
    {
        SystemState a, b;
        for (int o = 0; o < 3; ++o) {
            int k = v_choice("op", 0, 3), n = v_choice("n", 0, 2), m = v_choice("m", 0, 2);
            if (k == 0) a.resize(n, m);
            if (k == 1) { b.resize(n, m); for (int i = 0; i < N_BODY_ARR; ++i) for (int j = 0; j < b.n; ++j) bodyArr(b, i)[j] = i + j; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2 * b.n_c; ++j) reactArr(b, i)[j] = j; for (int j = 0; j < b.n_c; ++j) b.indexMap[j] = j; a.copy(&b); v_assert(a.n == b.n && a.n_c == b.n_c, "copied"); }
            if (k == 2) a.destroy();
            if (k == 3) b.destroy();
        }
        a.destroy(); b.destroy();
    }
    v_assert(v_live() == before, "released");
}
// large populations through every solver
void c33_crowd() {
    int before = v_live();
    {
        int kind = v_choice("kind", GEN_EULER, NSV_SYS), so = v_choice("solver", 0, 2);
        Solvers s; s.gs.m_minDelta = INFINITY; s.gs.m_maxIterations = 1;
        Machine mc(kind, s.get(so));
        static const int N = 24;
        RigidBody rb[N]; Simple *c[N]; GravityForceGenerator g;
        mc.sys().addForceGenerator(&g);
        int n0 = v_choice("n0", 0, 1) ? N : 2, n1 = v_choice("n1", 0, 1) ? 17 : 1;
        for (int i = 0; i < N; ++i) { init(rb[i], i % 3); c[i] = new Simple(1 + (i % 3), 1, i % 3); c[i]->m_bodies[0] = &rb[i]; }
        for (int i = 0; i < n0; ++i) { mc.sys().addRigidBody(&rb[i]); mc.sys().addConstraint(c[i]); }
        mc.sys().process(0.5, 1);
        mc.sys().reset();
        for (int i = 0; i < n1; ++i) { mc.sys().addRigidBody(&rb[i]); mc.sys().addConstraint(c[i]); }
        mc.sys().process(0.5, 1);
        for (int i = 0; i < n1; ++i) { v_observe(rb[i].v_x, "number"); v_observe(rb[i].theta, "number"); v_observe(c[i]->F_t[0][0], "number"); v_observe(c[i]->F_x[0][0], "number"); }
        for (int i = 0; i < N; ++i) delete c[i];
    }
    v_assert(v_live() == before, "released");
}
}
