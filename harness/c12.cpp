// C12 frames and energy
#include "st.h"
//@ bound one rigid body; system states of 1..3 bodies, every body index; every pose, velocity, point, mass and inertia an arbitrary real
//@ entry c12_body need=map,round-trip,pure
//@ entry c12_rigid need=distance,orientation
//@ entry c12_state need=state-map,pure
//@ entry c12_energy need=energy
//@ entry c12_new
static void sym(RigidBody &b) {
    b.p_x = v_real("px"); b.p_y = v_real("py"); b.theta = v_real("th");
    b.v_x = v_real("vx"); b.v_y = v_real("vy"); b.v_theta = v_real("w");
    b.m = v_real("m"); b.I = v_real("I"); b.index = v_int("index", -1, 1000);
}
static void pure(RigidBody &b, int index) {
    v_eq(b.p_x, v_real("px"), "pure"); v_eq(b.p_y, v_real("py"), "pure"); v_eq(b.theta, v_real("th"), "pure");
    v_eq(b.v_x, v_real("vx"), "pure"); v_eq(b.v_y, v_real("vy"), "pure"); v_eq(b.v_theta, v_real("w"), "pure");
    v_eq(b.m, v_real("m"), "pure"); v_eq(b.I, v_real("I"), "pure"); v_assert(b.index == index, "pure");
}
extern "C" {
void c12_body() {
    RigidBody b; sym(b);
    int ix = b.index;
    double x = v_real("x"), y = v_real("y"), wx = 0, wy = 0, lx = 0, ly = 0;
    b.localToWorld(x, y, &wx, &wy);
    double c = std::cos(b.theta), s = std::sin(b.theta);
    v_eq(wx, b.p_x + c * x - s * y, "map");
    v_eq(wy, b.p_y + s * x + c * y, "map");
    b.worldToLocal(wx, wy, &lx, &ly);
    v_eq(lx, x, "round-trip"); v_eq(ly, y, "round-trip");
    b.worldToLocal(x, y, &lx, &ly);
    v_eq(lx, c * (x - b.p_x) + s * (y - b.p_y), "map");
    v_eq(ly, -s * (x - b.p_x) + c * (y - b.p_y), "map");
    b.localToWorld(lx, ly, &wx, &wy);
    v_eq(wx, x, "round-trip"); v_eq(wy, y, "round-trip");
    // in place
    wx = x; wy = y;
    b.localToWorld(wx, wy, &wx, &wy); b.worldToLocal(wx, wy, &wx, &wy);
    v_eq(wx, x, "round-trip"); v_eq(wy, y, "round-trip");
    pure(b, ix);
}
void c12_rigid() {
    RigidBody b; sym(b);
    double x[3], y[3];
    for (int i = 0; i < 3; ++i) b.localToWorld(v_realn("x", i), v_realn("y", i), &x[i], &y[i]);
    double ux = v_realn("x", 1) - v_realn("x", 0), uy = v_realn("y", 1) - v_realn("y", 0);
    double tx = v_realn("x", 2) - v_realn("x", 0), ty = v_realn("y", 2) - v_realn("y", 0);
    double Ux = x[1] - x[0], Uy = y[1] - y[0], Tx = x[2] - x[0], Ty = y[2] - y[0];
    v_eq(Ux * Ux + Uy * Uy, ux * ux + uy * uy, "distance");
    v_eq(Ux * Ty - Uy * Tx, ux * ty - uy * tx, "orientation");
    double ox, oy;
    b.localToWorld(0, 0, &ox, &oy);
    v_eq(ox, b.p_x, "origin"); v_eq(oy, b.p_y, "origin");
}
void c12_state() {
    SystemState s; Snap q;
    int n = v_choice("n", 1, 3);
    symState(s, q, "s", n, 1);
    int i = v_choice("i", 0, n - 1);
    RigidBody b;
    b.p_x = q.b[P_X][i]; b.p_y = q.b[P_Y][i]; b.theta = q.b[TH][i];
    double x = v_real("x"), y = v_real("y"), ax, ay, bx, by;
    s.localToWorld(x, y, &ax, &ay, i);
    b.localToWorld(x, y, &bx, &by);
    v_eq(ax, bx, "state-map"); v_eq(ay, by, "state-map");
    double c = std::cos(q.b[TH][i]), d = std::sin(q.b[TH][i]);
    v_eq(ax, q.b[P_X][i] + c * x - d * y, "state-map");
    v_eq(ay, q.b[P_Y][i] + d * x + c * y, "state-map");
    sameState(s, q, "pure");
    s.destroy();
}
void c12_energy() {
    RigidBody b; sym(b);
    int ix = b.index;
    double e = b.energy();
    v_eq(e, (b.m * (b.v_x * b.v_x + b.v_y * b.v_y) + b.I * b.v_theta * b.v_theta) / 2, "energy");
    pure(b, ix);
}
void c12_new() {
    RigidBody b;
    v_assert(b.index == -1, "new");
    v_eq(b.energy(), 0, "new");
    double x, y;
    b.localToWorld(v_real("x"), v_real("y"), &x, &y);
    v_eq(x, v_real("x"), "new"); v_eq(y, v_real("y"), "new");
    sym(b);
    b.reset();
    v_eq(b.energy(), 0, "new");
    b.localToWorld(v_real("x"), v_real("y"), &x, &y);
    v_eq(x, v_real("x"), "new"); v_eq(y, v_real("y"), "new");
}
}
