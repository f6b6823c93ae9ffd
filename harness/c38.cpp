// C38 the physics has no preferred place, direction, speed or handedness
#include "twin.h"
//@ bound 3 bodies with one or two constraints of any of the nine kinds (six for the moving frame) in either order at any slots, or a spring, motor, static force, arbitrary force or weight; all three systems, 1 to 2 sub-steps; the second world is the first one shifted, seen from a uniformly moving frame, turned by an arbitrary angle or mirrored; all values arbitrary reals; multipliers arbitrary and transformed along, the equations and limits handed to the solver are compared
//@ stub equation solver: arbitrary multipliers, in the second world the transformed ones
//@ entry c38_shift need=body,equation,force
//@ entry c38_moving need=body,equation,force
//@ entry c38_turned need=body,equation,force
//@ entry c38_mirrored need=body,equation,force
//@ entry c38_limits need=limits
//@ entry c38_pair need=body,equation,force budget=200
//@ entry c38_forces need=body branch-ms=150 budget=200
//@ entry c38_rk4 need=body,equation,force
//@ entry c38_steps need=body
static Frame frame(int z) {
    Frame f;
    if (z == 0 || z == 4) { f.d = v_real("shift_x"); f.e = v_real("shift_y"); }
    if (z == 1 || z == 4) { f.u = v_real("move_x"); f.w = v_real("move_y"); }
    if (z == 2) { f.phi = v_real("turn"); f.c = cos(f.phi); f.s = sin(f.phi); f.turned = true; }
    if (z == 3) f.mirror = true;
    return f;
}
static int system() { return v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER; }
static void run(int kind, int z, int count, int n, int steps, bool lim = false) {
    // a moving frame takes along what is not anchored to the world
    twins(kind, frame(z), count, n, steps, kind == GEN_RK4 ? SPIN_KINDS : z == 1 ? FREE_KINDS : ALL_KINDS, lim);
}
extern "C" {
void c38_shift() { run(system(), 0, 1, 3, 1); }
void c38_moving() { run(system(), 1, 1, 3, 1); }
void c38_turned() { run(system(), 2, 1, 3, 1); }
void c38_mirrored() { run(system(), 3, 1, 3, 1); }
void c38_limits() { run(NSV_SYS, v_choice("frame", 0, 3), 1, 2, 1, true); }
void c38_pair() { int k = system(); run(k, v_choice("frame", 0, 3), 2, 3, 1); }
void c38_rk4() { run(GEN_RK4, v_choice("frame", 0, 3), 1, 2, 1); }
void c38_steps() { int k = system(); run(k, v_choice("frame", 0, 3), 1, 2, 2); }
// the library's forces
void c38_forces() {
    int kind = system(), z = v_choice("frame", 0, 4), what = v_choice("what", 0, 3);
    // the weight always points down
    if (what == 3) v_assume(z != 2);
    twinForces(kind, frame(z), what, 1);
}
}
