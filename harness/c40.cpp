// C40 units of measurement do not matter
#include "twin.h"
//@ bound 3 bodies with one or two constraints of any of the nine kinds in either order at any slots under arbitrary forces, or a motor, static force, weight, or spring (springs: other units of time and mass only, their drop-out distance is a length); all three systems (Runge-Kutta: rotational kinds), 1 to 2 sub-steps; units of length, time and mass arbitrary positive reals; all other values arbitrary reals; multipliers arbitrary and converted along, the equations and limits handed to the solver are compared
//@ stub equation solver: arbitrary multipliers, in the second world the converted ones
//@ entry c40_all need=body,equation,force
//@ entry c40_limits need=limits
//@ entry c40_pair need=body,equation,force budget=200
//@ entry c40_rk4 need=body,equation,force
//@ entry c40_steps need=body
//@ entry c40_forces need=body branch-ms=150 budget=200
static Frame units(int z) {
    Frame f;
    if (z & 1) { f.L = v_real("metre"); v_assume(f.L > 0); }
    if (z & 2) { f.T = v_real("second"); v_assume(f.T > 0); }
    if (z & 4) { f.M = v_real("kilogram"); v_assume(f.M > 0); }
    return f;
}
static int system() { return v_choice("nsv", 0, 1) ? NSV_SYS : GEN_EULER; }
extern "C" {
void c40_all() { int k = system(); twins(k, units(7), 1, 3, 1, ALL_KINDS); }
void c40_limits() { twins(NSV_SYS, units(7), 1, 2, 1, ALL_KINDS, true); }
void c40_pair() { int k = system(); twins(k, units(7), 2, 3, 1, ALL_KINDS); }
void c40_rk4() { twins(GEN_RK4, units(7), 1, 2, 1, SPIN_KINDS); }
void c40_steps() { int k = system(); twins(k, units(v_choice("units", 0, 2) == 0 ? 1 : 6), 1, 2, 2, ALL_KINDS); }
void c40_forces() { int k = system(), what = v_choice("what", 0, 3); twinForces(k, units(what == 0 ? 6 : 7), what, 1); }
}
