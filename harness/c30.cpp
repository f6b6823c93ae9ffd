// C30 bodies outside the system
#include "world.h"
#include "crowd.h"
//@ bound clutch, gear and any other row (arbitrary values) attached to one registered and one unregistered body, either side, every slot among 3 bodies, both systems; next to a second, ordinary constraint; every value an arbitrary real; 30 bodies with 30 constraints and 300 with 140, every third body outside (never registered, or removed)
//@ stub c30_any: constraint values and multipliers are stand-ins; c30_clutch, c30_gear use the library's own constraints with its Gaussian and limited Gauss-Seidel solvers
//@ entry c30_any need=world,untouched,others
//@ entry c30_clutch need=immovable,untouched,others
//@ entry c30_gear need=immovable,untouched
//@ entry c30_limited need=immovable
//@ entry c30_removed need=immovable
//@ entry c30_motor need=immovable
//@ entry c30_crowd need=equation,untouched,impulse
//@ entry c30_hundreds need=equation,impulse,untouched
static void symOutside(RigidBody &b, B6 &q) { symBody(b, q, 25); b.index = -1; }
static void untouched(RigidBody &b, B6 &q) {
    B6 z; takeBody(b, z);
    for (int k = 0; k < 3; ++k) { v_eq(z.v[k], q.v[k], "untouched"); v_eq(z.p[k], q.p[k], "untouched"); v_eq(z.m[k], q.m[k], "untouched"); }
    v_assert(b.index == -1, "untouched");
}
extern "C" {
// any row: what is solved and what acts is as for a world of infinite mass at rest
void c30_any() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    AnySolver as(false);
    Machine mc(kind, &as);
    RigidBody rb[3], out; B6 q[3], qo;
    for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    symOutside(out, qo);
    mc.n.m_biasFactor = v_real("beta");
    int side = v_choice("side", 0, 1), s = v_choice("slot", 0, 2), rows = v_choice("rows", 1, 2);
    AnyRow c(0, rows, 2), d(1, 1, 2);
    c.m_bodies[side] = &rb[s]; c.m_bodies[1 - side] = &out;
    d.m_bodies[0] = &rb[(s + 1) % 3]; d.m_bodies[1] = &rb[s];
    bool first = v_choice("first", 0, 1);
    if (first) mc.sys().addConstraint(&d);
    mc.sys().addConstraint(&c);
    if (!first) mc.sys().addConstraint(&d);
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    int r0 = first ? 1 : 0, rd = first ? 0 : rows;
    for (int r = 0; r < rows; ++r) {
        // the row the solver sees has the registered side only
        double res = 0;
        for (int k = 0; k < 9; ++k) v_eq(as.J[r0 + r][k], k / 3 == s ? c.last.J[r][3 * side + k % 3] : 0, "world");
        B6 z; takeBody(rb[s], z);
        if (kind == NSV_SYS) {
            res = h * c.last.v_bias[r] + v_real("beta") * c.last.C[r];
            for (int k = 0; k < 3; ++k) res += h * c.last.J[r][3 * side + k] * z.v[k];
        } else {
            res = h * c.last.ks[r] * c.last.C[r];
            for (int k = 0; k < 3; ++k) res += c.last.J[r][3 * side + k] * (z.v[k] - q[s].v[k]) + h * (c.last.J_dot[r][3 * side + k] + c.last.kd[r] * c.last.J[r][3 * side + k]) * q[s].v[k];
        }
        v_eq(res, h * (as.A(r0 + r) - as.b[r0 + r]), "world");
    }
    for (int i = 0; i < 3; ++i) {
        B6 z; takeBody(rb[i], z);
        double imp = kind == NSV_SYS ? 1 : h;
        for (int k = 0; k < 3; ++k) {
            double e = 0;
            if (i == s) { for (int r = 0; r < rows; ++r) e += c.last.J[r][3 * side + k] * as.lam[r0 + r]; e += d.last.J[0][3 + k] * as.lam[rd]; }
            if (i == (s + 1) % 3) e += d.last.J[0][k] * as.lam[rd];
            v_eq((z.v[k] - q[i].v[k]) * q[i].m[k], imp * e, "others");
        }
    }
    untouched(out, qo);
}
static void pair(int what, int solver) {
    // (the limited solver in the velocity-level system clamps at the limits: c30_limited)
    int kind = !solver && v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    GaussianEliminationSleSolver ge; GaussSeidelSleSolver gs; gs.m_minDelta = INFINITY; gs.m_maxIterations = 1;
    Machine mc(kind, solver ? (SleSolver *)&gs : (SleSolver *)&ge);
    RigidBody rb[3], out; B6 q[3], qo;
    for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    symOutside(out, qo);
    ClutchConstraint cl; SimpleGearConstraint ge1;
    int side = v_choice("side", 0, 1), s = v_choice("slot", 0, 2);
    Constraint &c = what ? (Constraint &)ge1 : (Constraint &)cl;
    if (what) { ge1.m_ratio = v_real("ratio"); v_assume(ge1.m_ratio > 0); }
    c.m_bodies[side] = &rb[s]; c.m_bodies[1 - side] = &out;
    cl.m_kd = ge1.m_kd = v_real("kd");
    mc.sys().addConstraint(&c);
    mc.n.m_biasFactor = v_real("beta");
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    for (int i = 0; i < 3; ++i) {
        B6 z; takeBody(rb[i], z);
        v_eq(z.v[0], q[i].v[0], "others"); v_eq(z.v[1], q[i].v[1], "others");
        if (i != s) v_eq(z.v[2], q[i].v[2], "others");
        else if (kind == NSV_SYS) v_eq(z.v[2], 0, "immovable");   // held to the world
        else v_eq(z.v[2] - q[i].v[2], -h * v_real("kd") * q[i].v[2], "immovable");
        for (int k = 0; k < 3; ++k) v_eq(z.p[k], q[i].p[k] + h * (kind == NSV_SYS ? z.v[k] : q[i].v[k]), "others");
    }
    // the torque that holds it
    B6 z; takeBody(rb[s], z);
    v_eq(h * c.F_t[0][side], (z.v[2] - q[s].v[2]) * q[s].m[2], "immovable");
    untouched(out, qo);
}
void c30_clutch() { pair(0, v_choice("gs", 0, 1)); }
void c30_gear() { pair(1, 0); }
// torque-limited clutch to the world
void c30_limited() {
    OptimizedNsvRigidBodySystem sys; GaussSeidelSleSolver gs; gs.m_minDelta = INFINITY; gs.m_maxIterations = 1;
    sys.initialize(&gs);
    RigidBody rb, out; B6 q, qo;
    symBody(rb, q, 0); sys.addRigidBody(&rb); symOutside(out, qo);
    ClutchConstraint cl;
    int side = v_choice("side", 0, 1);
    cl.m_bodies[side] = &rb; cl.m_bodies[1 - side] = &out;
    cl.m_maxTorque = v_real("T"); v_assume(cl.m_maxTorque >= 0); cl.m_minTorque = -cl.m_maxTorque;
    sys.addConstraint(&cl);
    double h = v_real("h"); v_assume(h > 0);
    sys.process(h, 1);
    double L = q.m[2] * q.v[2], T = h * cl.m_maxTorque;
    double want = L > T ? L - T : (L < -T ? L + T : 0);
    v_eq(rb.v_theta * q.m[2], want, "immovable");
    untouched(out, qo);
}
// a body removed from the system becomes part of the world
void c30_removed() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    GaussianEliminationSleSolver ge;
    Machine mc(kind, &ge);
    RigidBody rb[3]; B6 q[3];
    for (int i = 0; i < 3; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    ClutchConstraint cl;
    int a = v_choice("a", 0, 2), b = v_choice("b", 0, 2);
    v_assume(a != b);
    cl.setBody1(&rb[a]); cl.setBody2(&rb[b]);
    mc.sys().addConstraint(&cl);
    cl.m_kd = 2;
    double h = v_real("h"); v_assume(h > 0);
    if (v_choice("stepped", 0, 1)) { mc.sys().process(1, 1); for (int i = 0; i < 3; ++i) symBody(rb[i], q[i], i); }
    int gone = v_choice("which", 0, 1) ? a : b, stay = gone == a ? b : a, third = 3 - a - b;
    mc.sys().removeRigidBody(&rb[gone]);
    mc.sys().process(h, 1);
    if (kind == NSV_SYS) v_eq(rb[stay].v_theta, 0, "immovable");
    else v_eq(rb[stay].v_theta, q[stay].v[2] * (1 - 2 * h), "immovable");
    B6 z; takeBody(rb[third], z);
    for (int k = 0; k < 3; ++k) v_eq(z.v[k], q[third].v[k], "others");
    untouched(rb[gone], q[gone]);
}
// a motor whose stator is outside
void c30_motor() {
    int kind = v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER;
    FuncSolver s(false);
    Machine mc(kind, &s);
    RigidBody rb[2], out; B6 q[2], qo;
    for (int i = 0; i < 2; ++i) { symBody(rb[i], q[i], i); mc.sys().addRigidBody(&rb[i]); }
    symOutside(out, qo);
    ConstantSpeedMotor m;
    int sl = v_choice("slot", 0, 1);
    m.m_body0 = &out; m.m_body1 = &rb[sl]; m.m_speed = v_real("w"); m.m_ks = v_real("ks"); m.m_maxTorque = v_real("T");
    v_assume(m.m_maxTorque >= 0);
    mc.sys().addForceGenerator(&m);
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    double want = (v_real("w") - q[sl].v[2]) * v_real("ks"), T = m.m_maxTorque;
    double tq = std::fmin(T, std::fmax(-T, want));
    v_eq((rb[sl].v_theta - q[sl].v[2]) * q[sl].m[2], h * tq, "immovable");
    for (int k = 0; k < 3; ++k) { B6 z; takeBody(rb[1 - sl], z); v_eq(z.v[k], q[1 - sl].v[k], "others"); }
    untouched(out, qo);
}
// many bodies, every third of them outside the system
void c30_crowd() {
    bool nsv = v_choice("nsv", 0, 1);
    Crowd t(30, 30, true);
    CrowdSolver as(nsv && v_choice("limited", 0, 1));
    Machine mc(nsv ? NSV_SYS : GEN_EULER, &as);
    int out = v_choice("out", 0, 2);
    bool removed = v_choice("removed", 0, 1);
    for (int i = 0; i < t.nb; ++i) if (removed || i % 3 != out) mc.sys().addRigidBody(&t.rb[i]);
    if (removed) for (int i = 0; i < t.nb; ++i) if (i % 3 == out) mc.sys().removeRigidBody(&t.rb[i]);
    for (int j = 0; j < t.nc; ++j) mc.sys().addConstraint(t.c[j]);
    mc.sys().addForceGenerator(&t.f);
    mc.n.m_biasFactor = 0.5;
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    t.verify(as, nsv, h, 0.5, "impulse");
}
// hundreds of bodies and rows
void c30_hundreds() {
    bool nsv = v_choice("nsv", 0, 1);
    Crowd t(300, 140, true);
    CrowdSolver as(nsv);
    Machine mc(nsv ? NSV_SYS : GEN_EULER, &as);
    int out = v_choice("out", 0, 2);
    for (int i = 0; i < t.nb; ++i) mc.sys().addRigidBody(&t.rb[i]);
    for (int i = 0; i < t.nb; ++i) if (i % 3 == out) mc.sys().removeRigidBody(&t.rb[i]);
    for (int j = 0; j < t.nc; ++j) mc.sys().addConstraint(t.c[j]);
    mc.sys().addForceGenerator(&t.f);
    mc.n.m_biasFactor = 0.5;
    double h = v_real("h"); v_assume(h > 0);
    mc.sys().process(h, 1);
    t.verify(as, nsv, h, 0.5, "impulse");
}
}
