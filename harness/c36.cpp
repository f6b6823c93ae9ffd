// C36 the state that forces, constraints and observers see
#include "crowd.h"
#include "world.h"
//@ bound every system kind (single-stage, fourth-order, velocity level); 1 to 40 bodies with 0 to 40 constraints and 300 bodies with 140 constraints, three force generators, the system fresh or after earlier steps with other values, fewer elements or a reset, possibly with every third body or every second constraint taken out again; 1 to 5 sub-steps, two frames; states, forces, multipliers and time step arbitrary reals (masses too in the smaller ones); every evaluation of every stage is looked at
//@ stub constraints, force generators and the equation solver are stand-ins returning arbitrary values
//@ entry c36_single need=stage,mass,forces,counts,first-row,acceleration,stage-dt,after
//@ entry c36_stages need=stage,mass,forces,counts,first-row,acceleration,stage-dt,after
//@ entry c36_many need=stage,mass,forces,counts,first-row,acceleration,stage-dt,after
//@ entry c36_hundreds need=stage,mass,forces,counts,first-row,acceleration,stage-dt,after
//@ entry c36_frames need=stage,mass,forces,counts,first-row,acceleration,stage-dt,after
//@ entry c36_deep thorough need=stage,mass,forces,counts,first-row,acceleration,stage-dt,after
// what the step has reached so far, from the forces and multipliers of the evaluations before
struct Eye : Spy, ForceGenerator {
    Crowd &t; CrowdSolver &as; RigidBodySystem &sys; int kind; double h;
    bool gone[CC];                       // constraints taken out
    double m[CB][3], p0[CB][3], v0[CB][3];  // masses; start of the sub-step
    double kv[4][CB][3], F[4][CB][3];    // velocity and force of each stage
    int last = -1;                       // stage of the evaluation before, none at the start of a frame
    double ext[CB][3];                   // forces the generators have added in this evaluation
    int st = -1, base = 0, evals = 0; bool open = false;
    Eye(Crowd &t_, CrowdSolver &as_, Machine &w, double h_) : t(t_), as(as_), sys(w.sys()), kind(w.kind), h(h_) {
        for (int j = 0; j < t.nc; ++j) { gone[j] = false; t.c[j]->spy = this; }
        sys.addForceGenerator(this);
    }
    int stages() { return kind == GEN_RK4 ? 4 : 1; }
    void begin() {  // of a frame
        int at[CC];
        for (int i = 0; i < t.nc; ++i) if (!gone[i]) at[t.c[i]->m_index] = i;
        total = 0;
        for (int k = 0; k < sys.getConstraintCount(); ++k) { first[at[k]] = total; total += t.c[at[k]]->getConstraintCount(); }
        for (int i = 0; i < t.nb; ++i) { B6 z; takeBody(t.rb[i], z); for (int k = 0; k < 3; ++k) { m[i][k] = z.m[k]; v0[i][k] = z.v[k]; p0[i][k] = z.p[k]; } }
        st = last = -1; base = as.calls; evals = 0; open = false;
    }
    bool in(int i) { return t.rb[i].index != -1; }
    // the evaluation that has just been solved
    void finish() {
        if (!open) return;
        v_assert(as.calls == base + evals, "solved-once");
        for (int i = 0; i < t.nb; ++i) for (int k = 0; k < 3; ++k) F[st][i][k] = h * ext[i][k];
        for (int j = 0; j < t.nc; ++j) if (!gone[j]) for (int r = 0; r < t.c[j]->getConstraintCount(); ++r) for (int b = 0; b < t.c[j]->m_bodyCount; ++b) {
            int i = (int)(t.c[j]->m_bodies[b] - t.rb);
            for (int k = 0; k < 3; ++k) F[st][i][k] += t.c[j]->last.J[r][3 * b + k] * as.l(row(j) + r) * (kind == NSV_SYS ? 1 : h);
        }
        open = false; last = st;
    }
    int first[CC], total;                // rows of the registered constraints
    int row(int j) { return first[j]; }
    int rows() { return total; }
    // the state at the start of evaluation number st of a sub-step, or (st < 0) at its end
    void expect(const SystemState *s, int now, const char *id) {
        for (int i = 0; i < t.nb; ++i) if (in(i)) {
            int x = t.rb[i].index;
            double a[3] = {s->a_x[x], s->a_y[x], s->a_theta[x]};
            for (int k = 0; k < 3; ++k) v_eq(h * m[i][k] * a[k], last < 0 ? 0 : F[last][i][k], "acceleration");
            double p[3] = {s->p_x[x], s->p_y[x], s->theta[x]}, v[3] = {s->v_x[x], s->v_y[x], s->v_theta[x]};
            for (int k = 0; k < 3; ++k) {
                if (now == 0) { v_eq(p[k], p0[i][k], id); v_eq(v[k], v0[i][k], id); }
                else if (now > 0) {
                    int w = now == 3 ? 1 : 2;
                    v_eq(w * (p[k] - p0[i][k]), h * kv[now - 1][i][k], id);
                    v_eq(w * m[i][k] * (v[k] - v0[i][k]), F[now - 1][i][k], id);
                } else if (kind == GEN_RK4) {
                    v_eq(6 * (p[k] - p0[i][k]), h * (kv[0][i][k] + 2 * kv[1][i][k] + 2 * kv[2][i][k] + kv[3][i][k]), id);
                    v_eq(6 * m[i][k] * (v[k] - v0[i][k]), F[0][i][k] + 2 * F[1][i][k] + 2 * F[2][i][k] + F[3][i][k], id);
                } else {
                    v_eq(p[k] - p0[i][k], h * (kind == NSV_SYS ? v[k] : kv[0][i][k]), id);
                    v_eq(m[i][k] * (v[k] - v0[i][k]), F[0][i][k], id);
                }
                if (now >= 0) kv[now][i][k] = v[k];
                else { p0[i][k] = p[k]; v0[i][k] = v[k]; }
            }
        }
    }
    void rest(const SystemState *s) {
        int n = 0;
        for (int i = 0; i < t.nb; ++i) if (in(i)) { ++n; v_eq(s->m[t.rb[i].index], m[i][0], "mass"); }
        v_assert(s->n >= n, "counts");
        v_assert(s->n_c >= rows(), "counts");
        for (int j = 0; j < t.nc; ++j) if (!gone[j]) v_assert(s->indexMap[t.c[j]->m_index] == row(j), "first-row");
    }
    void see(SystemState *s) override {
        if (open && as.calls == base + evals) finish();
        if (!open) {  // first one to look in this evaluation
            open = true; ++evals;
            if (st + 1 == stages()) { expect(s, -1, "stage"); st = -1; }  // (looked at twice: as the end of a sub-step and the start of the next)
            expect(s, ++st, "stage");
            rest(s);
            for (int i = 0; i < t.nb; ++i) for (int k = 0; k < 3; ++k) ext[i][k] = 0;
        } else {
            for (int i = 0; i < t.nb; ++i) if (in(i)) { int x = t.rb[i].index; v_eq(s->v_x[x], kv[st][i][0], "stage"); v_eq(s->v_y[x], kv[st][i][1], "stage"); v_eq(s->v_theta[x], kv[st][i][2], "stage"); }
        }
        v_eq(2 * s->dt, kind != GEN_RK4 ? 2 * h : st * h == 0 ? 0 * h : st == 3 ? 2 * h : h, "stage-dt");
    }
    void add(SystemState *s, const double (*f)[3]) {
        see(s);
        for (int i = 0; i < t.nb; ++i) if (in(i)) {
            int x = t.rb[i].index;
            v_eq(s->f_x[x], ext[i][0], "forces"); v_eq(s->f_y[x], ext[i][1], "forces"); v_eq(s->t[x], ext[i][2], "forces");
            s->f_x[x] += f[i][0]; s->f_y[x] += f[i][1]; s->t[x] += f[i][2];
            for (int k = 0; k < 3; ++k) ext[i][k] += f[i][k];
        }
    }
    void apply(SystemState *s) override {
        double f[CB][3];
        for (int i = 0; i < t.nb; ++i) for (int k = 0; k < 3; ++k) f[i][k] = (i + k) % 3 ? 0 : 1 + k;
        add(s, f);
    }
    // after the frame
    void after(int steps) {
        finish();
        v_assert(evals == steps * stages(), "evaluations");
        const SystemState *s = sys.state();
        expect(s, -1, "after");
        st = -1;
        rest(s);
        for (int i = 0; i < t.nb; ++i) if (in(i)) {
            int x = t.rb[i].index; RigidBody &b = t.rb[i];
            v_eq(s->p_x[x], b.p_x, "after"); v_eq(s->p_y[x], b.p_y, "after"); v_eq(s->theta[x], b.theta, "after");
            v_eq(s->v_x[x], b.v_x, "after"); v_eq(s->v_y[x], b.v_y, "after"); v_eq(s->v_theta[x], b.v_theta, "after");
            v_eq(s->f_x[x], ext[i][0], "after"); v_eq(s->f_y[x], ext[i][1], "after"); v_eq(s->t[x], ext[i][2], "after");
        }
        for (int j = 0; j < t.nc; ++j) if (!gone[j]) for (int r = 0; r < t.c[j]->getConstraintCount(); ++r) for (int b = 0; b < t.c[j]->m_bodyCount; ++b) {
            if (t.c[j]->m_bodies[b]->index == -1) continue;
            int at = 2 * (row(j) + r) + b;
            v_eq(s->r_x[at], t.c[j]->F_x[r][b], "after"); v_eq(s->r_y[at], t.c[j]->F_y[r][b], "after"); v_eq(s->r_t[at], t.c[j]->F_t[r][b], "after");
        }
    }
    void drop() { for (int j = t.nc - 1; j >= 0; --j) if (j % 2) { sys.removeConstraint(t.c[j]); gone[j] = true; } }
};
// more forces, all of them looking
struct Looker : ForceGenerator {
    Eye &e; int id, calls = 0;
    Looker(Eye &y, int i) : e(y), id(i) { e.sys.addForceGenerator(this); }
    void apply(SystemState *s) override {
        double f[CB][3];
        for (int i = 0; i < e.t.nb; ++i) for (int k = 0; k < 3; ++k) f[i][k] = sym(k == 0 ? "Lx" : k == 1 ? "Ly" : "Lt", id, calls, i);
        ++calls;
        e.add(s, f);
    }
};
static void run(int kind, int nb, int nc, bool concrete, int past, int part, int steps, int frames) {
    Crowd t(nb, nc, concrete);
    CrowdSolver as(kind == NSV_SYS && nc % 2);
    Machine w(kind, &as);
    t.enter(w.sys(), past, concrete, as.calls);
    w.sys().removeForceGenerator(&t.f);
    double h = v_real("h"); v_assume(h > 0);
    Eye *e = new Eye(t, as, w, h);
    Looker a(*e, 0), b(*e, 1);
    if (part == 1) t.leave(w.sys());
    if (part == 2) e->drop();
    for (int k = 0; k < frames; ++k) {
        e->begin();
        w.sys().process(h * steps, steps);
        e->after(steps);
        if (k == 0 && frames > 1 && part == 0) { t.leave(w.sys()); e->drop(); }
    }
    if (nb > 100) { delete e; return; }
    // nothing pushes any more
    w.sys().removeForceGenerator(e); w.sys().removeForceGenerator(&b); w.sys().removeForceGenerator(&a);
    for (int j = 0; j < nc; ++j) t.c[j]->spy = nullptr;
    w.sys().process(0.5, 1);
    const SystemState *s = w.sys().state();
    for (int i = 0; i < t.nb; ++i) if (e->in(i)) { int x = t.rb[i].index; v_eq(s->f_x[x], 0, "forces"); v_eq(s->f_y[x], 0, "forces"); v_eq(s->t[x], 0, "forces"); }
    delete e;
}
extern "C" {
// single-stage systems of every size
void c36_single() {
    int z = v_choice("size", 0, SIZES - 1);
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    run(kind, SIZE_NB[z], SIZE_NC[z], z == 0, v_choice("past", 0, 3), z < 2 ? v_choice("part", 0, 2) : 0, 1, 1);
}
// the stages of the fourth-order step
void c36_stages() {
    static const int NB[4] = {12, 3, 2, 1}, NC[4] = {9, 2, 0, 1};
    int z = v_choice("size", 0, 3);
    run(GEN_RK4, NB[z], NC[z], true, v_choice("past", 0, 3), v_choice("part", 0, 2) * (z == 0), 1, 1);
}
// several sub-steps and a second frame
void c36_many() {
    static const int N[3] = {1, 2, 5};
    int kind = v_choice("kind", 0, 2), few = v_choice("few", 0, FEWS - 1);
    run(kind, FEW_NB[few], FEW_NC[few], true, v_choice("past", 0, 3), 0, N[v_choice("steps", 0, kind == GEN_RK4 ? 1 : 2)], 2);
}
// hundreds of bodies and rows
void c36_hundreds() {
    int kind = v_choice("kind", 0, 2);
    int z = v_choice("case", 0, 3);  // fresh; after a frame; some bodies gone; some constraints gone
    run(kind, 300, 140, true, z == 1, z > 1 ? z - 1 : 0, 1, 1);
}
// hundreds of frames into the system's life
void c36_frames() { run(v_choice("kind", 0, 2), 4, 3, true, v_choice("past", 4, 6), 0, 1, 2); }
void c36_deep() {
    int kind = v_choice("kind", 0, 2);
    run(kind, 9, 7, true, v_choice("past", 0, 3), v_choice("part", 0, 2), kind == GEN_RK4 ? 3 : 12, 2);
}
}
