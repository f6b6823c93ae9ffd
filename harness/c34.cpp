// C34 profiling
#include "world.h"
//@ bound both systems; clock intervals of every phase arbitrary whole microseconds up to 10^6 (300 in frames of the long runs), arbitrary time between frames; up to 3 sub-steps (8 and 17 in c34_many, intervals up to 9 10^8), up to 3 stages per sub-step; 0 to 603 frames (long runs: the first and last frames' intervals arbitrary), a reset of the population between frames; clock in whole microseconds; a reset and a repopulation after 40, 300, 598 and 601 frames
//@ stub std::chrono::steady_clock, equation solver, constraints, forces and (generic system) integrator: stand-ins that only let time pass
//@ entry c34_frames need=zero,ode,solve,eval,force
//@ entry c34_substeps need=ode,solve,eval,force
//@ entry c34_wrap need=ode,solve,eval,force budget=200
//@ entry c34_resets need=ode,solve,eval,force budget=200
//@ entry c34_many need=ode,solve,eval,force
//@ entry c34_getters need=ode,solve,eval,force
//@ entry c34_wrap_all thorough need=ode,solve,eval,force budget=800
struct Clock { int ode = 0, solve = 0, eval = 0, force = 0, gap = 0; };
static Clock now;          // what each call takes
static double sum[4];      // ode, solve, eval, force: this frame
struct SlowForce : ForceGenerator { void apply(SystemState *) override { v_clock_advance(now.force); sum[3] += now.force; } };
struct SlowRow : Constraint {
    SlowRow() : Constraint(1, 1) {}
    void calculate(Output *o, SystemState *) override { *o = Output(); o->J[0][0] = 1; v_clock_advance(now.eval); sum[2] += now.eval; }
};
struct SlowSolver : SleSolver {
    SlowSolver(bool l) : SleSolver(l) {}
    bool solve(SparseMatrix<3> &J, Matrix &, Matrix &, Matrix *, Matrix *x) override { v_clock_advance(now.solve); sum[1] += now.solve; x->initialize(1, J.getHeight()); return true; }
    bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix &, Matrix *p, Matrix *x) override { return solve(J, W, r, p, x); }
};
struct SlowOde : OdeSolver {
    int stages, k = 0;
    SlowOde(int n) : stages(n) {}
    void start(SystemState *s, double dt) override { OdeSolver::start(s, dt); k = 0; }
    bool step(SystemState *) override { return ++k == stages; }
    void solve(SystemState *) override { v_clock_advance(now.ode); sum[0] += now.ode; }
    void end() override { k = 0; }
};
struct Bench {
    int kind; SlowSolver so; SlowOde od; GenericRigidBodySystem g; OptimizedNsvRigidBodySystem n; RigidBody b; SlowRow c[2]; SlowForce f[2];
    double hist[700][4]; int frames = 0;
    Bench(int kind_, int stages, int nc, int nf) : kind(kind_), so(kind_ == NSV_SYS && v_choice("limited", 0, 1)), od(stages) {
        if (kind == NSV_SYS) n.initialize(&so); else g.initialize(&so, &od);
        b.m = b.I = 1; b.p_x = b.p_y = b.theta = b.v_x = b.v_y = b.v_theta = 0;
        sys().addRigidBody(&b);
        for (int i = 0; i < nc; ++i) { c[i].m_bodies[0] = &b; sys().addConstraint(&c[i]); }
        for (int i = 0; i < nf; ++i) sys().addForceGenerator(&f[i]);
    }
    RigidBodySystem &sys() { return kind == NSV_SYS ? (RigidBodySystem &)n : (RigidBodySystem &)g; }
    double get(int k) { return k == 0 ? sys().getOdeSolveMicroseconds() : k == 1 ? sys().getConstraintSolveMicroseconds() : k == 2 ? sys().getConstraintEvalMicroseconds() : sys().getForceEvalMicroseconds(); }
    void frame(Clock c_, int steps) {
        now = c_;
        for (int k = 0; k < 4; ++k) sum[k] = 0;
        v_clock_advance(now.gap);
        sys().process(1, steps);
        v_clock_advance(now.gap);
        for (int k = 0; k < 4; ++k) hist[frames][k] = sum[k];
        ++frames;
    }
    void check() {
        static const char *id[4] = {"ode", "solve", "eval", "force"};
        int n_ = frames < 600 ? frames : 600;
        for (int k = 0; k < 4; ++k) {
            double s = 0;
            for (int i = 0; i < n_; ++i) s += hist[frames - 1 - i][k];
            if (n_ == 0) { v_eq(get(k), 0, "zero"); continue; }
            double g = get(k) * n_; // the figure is a float: exact up to single precision
            v_le(g, s * (1 + 1e-6), id[k]); v_le(s * (1 - 1e-6), g, id[k]);
        }
    }
};
static Clock any(int hi) { Clock c; c.ode = v_int("tode", 0, hi); c.solve = v_int("tsolve", 0, hi); c.eval = v_int("teval", 0, hi); c.force = v_int("tforce", 0, hi); c.gap = v_int("tgap", 0, hi); return c; }
extern "C" {
void c34_frames() {
    Bench b(v_choice("kind", GEN_EULER, NSV_SYS), v_choice("stages", 1, 2), v_choice("nc", 0, 2), v_choice("nf", 0, 2));
    v_assume(b.kind != NSV_SYS || b.od.stages == 1); v_assume(b.kind != GEN_RK4);
    b.check();
    for (int i = 0; i < 4; ++i) { b.frame(any(1000000), 1); b.check(); }
}
void c34_substeps() {
    Bench b(v_choice("kind", GEN_EULER, NSV_SYS), v_choice("stages", 1, 3), 2, 1);
    v_assume(b.kind != NSV_SYS || b.od.stages == 1); v_assume(b.kind != GEN_RK4);
    for (int i = 0; i < 3; ++i) b.frame(any(1000000), v_choice("steps", 1, 3));
    b.check();
}
// many sub-steps, long intervals
void c34_many() {
    Bench b(v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, 1, 2, 2);
    for (int i = 0; i < 2; ++i) b.frame(any(900000000), v_choice("long", 0, 1) ? 17 : 8);
    b.check();
}
// the ring of 600 frames: filled exactly, overwritten, wrapped
static void wrap(bool all) {
    int big = v_choice("long", 0, 1) ? 4000000 : 0;  // (together over 2^31)
    Bench b(v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, 1, 1, 1);
    int n = 603;
    for (int i = 0; i < n; ++i) {
        Clock c; c.ode = big + 1 + i % 97; c.solve = big + 2 + i % 89; c.eval = big + 3 + (i * 7) % 83; c.force = big + 5 + (i * 5) % 79; c.gap = 0;
        if (all || i < 3 || i >= 597) c = any(300);
        b.frame(c, 1);
        if (i == 0 || i == 2 || i >= 597) b.check();
    }
}
// resets and other populations before, while and after the ring fills up
static void resets() {
    static const int AT[4] = {40, 300, 598, 601};
    bool nsv = v_choice("nsv", 0, 1); int at = AT[v_choice("at", 0, 3)], crowd = v_choice("crowd", 0, 1) * 11;
    Bench b(nsv ? NSV_SYS : GEN_EULER, 1, 1, 1);
    RigidBody more[11];
    for (int i = 0; i < 640; ++i) {
        if (i == at) {
            for (int k = 0; k < crowd; ++k) { more[k].m = more[k].I = 1; more[k].p_x = more[k].p_y = more[k].theta = more[k].v_x = more[k].v_y = more[k].v_theta = 0; b.sys().addRigidBody(&more[k]); }
            b.sys().reset();
            b.b.index = -1; for (int k = 0; k < crowd; ++k) more[k].index = -1;
            b.sys().addRigidBody(&b.b); b.sys().addConstraint(&b.c[0]); b.sys().addForceGenerator(&b.f[0]);
            b.check();
        }
        Clock c; c.ode = 1 + i % 97; c.solve = 2 + i % 89; c.eval = 3 + (i * 7) % 83; c.force = 5 + (i * 5) % 79; c.gap = 0;
        if (i == 1 || i == at || i == at + 1 || i == 638) c = any(300);
        b.frame(c, 1);
        if (i == at || i == at + 5 || i == 605 || i == 639) b.check();
    }
}
void c34_resets() { resets(); }
void c34_wrap() { wrap(false); }
void c34_wrap_all() { wrap(true); }
// asking does not change the answer, nor does changing the population
void c34_getters() {
    Bench b(v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER, 1, 2, 2);
    b.frame(any(1000000), 1);
    for (int k = 0; k < 4; ++k) { double x = b.get(k), y = b.get(3 - k); v_eq(b.get(k), x, "same"); v_eq(b.get(3 - k), y, "same"); }
    b.check();
    b.sys().removeConstraint(&b.c[0]); b.sys().removeForceGenerator(&b.f[1]);
    b.check();
    b.frame(any(1000000), 2);
    b.check();
    b.sys().reset();
    b.check();
    if (v_choice("again", 0, 1)) { b.sys().addRigidBody(&b.b); b.sys().addConstraint(&b.c[1]); b.sys().addForceGenerator(&b.f[0]); }
    b.frame(any(1000000), 1);
    b.check();
    b.frame(any(1000000), 1);
    b.check();
}
}
