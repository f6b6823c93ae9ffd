// A small world built twice or more from the same description.
#pragma once
#include "rb.h"
// a constraint whose rows are a fixed (linear) function of the state of its bodies
struct StRow : Constraint {
    int id, calls = 0;
    StRow(int i, int rows, int b) : Constraint(rows, b), id(i) {}
    void calculate(Output *o, SystemState *s) override {
        ++calls;
        *o = Output();
        for (int r = 0; r < m_constraintCount; ++r) {
            o->limits[r][0] = -1 - id; o->limits[r][1] = 2 + r;
            o->ks[r] = 2 + id; o->kd[r] = 3 + r; o->v_bias[r] = id;
            for (int b = 0; b < m_bodyCount; ++b) {
                int i = m_bodies[b]->index;
                o->C[r] += (1 + b + r) * s->p_x[i] - s->p_y[i] * (id + 1) + 2 * s->theta[i];
                for (int k = 0; k < 3; ++k) { o->J[r][3 * b + k] = 1 + k + 2 * b + id - r; o->J_dot[r][3 * b + k] = k - b + r; }
            }
        }
    }
};
// a force that is a fixed (linear) function of the state of one body
struct StForce : ForceGenerator {
    int id, calls = 0; RigidBody *b;
    StForce(int i, RigidBody *rb) : id(i), b(rb) {}
    void apply(SystemState *s) override {
        ++calls;
        int i = b->index;
        if (i < 0) return;
        s->f_x[i] += 3 * s->p_x[i] - s->v_y[i] + id; s->f_y[i] += 2 * s->v_x[i] + s->p_y[i]; s->t[i] += s->theta[i] - 2 * s->v_theta[i];
    }
};
enum { GEN_EULER, GEN_RK4, NSV_SYS };
// one system of a chosen kind
struct Machine {
    int kind; GenericRigidBodySystem g; OptimizedNsvRigidBodySystem n; EulerOdeSolver eu; Rk4OdeSolver rk;
    Machine(int k, SleSolver *s) : kind(k) { if (k == NSV_SYS) n.initialize(s); else g.initialize(s, k == GEN_RK4 ? (OdeSolver *)&rk : (OdeSolver *)&eu); }
    RigidBodySystem &sys() { return kind == NSV_SYS ? (RigidBodySystem &)n : (RigidBodySystem &)g; }
};
