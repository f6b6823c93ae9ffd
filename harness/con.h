// One of each constraint type with symbolic parameters.
#pragma once
#include "st.h"
enum { FIXPOS, FIXROT, LINE, LINK, ROLL, CLUTCH, GEAR, FRICTION, CONSTROT, N_CON };
struct Cons {
    FixedPositionConstraint fp; FixedRotationConstraint fr; LineConstraint li; LinkConstraint lk; RollingConstraint ro;
    ClutchConstraint cl; SimpleGearConstraint ge; RotationFrictionConstraint rf; ConstantRotationConstraint cr;
    Constraint &get(int k) {
        switch (k) {
            case FIXPOS: return fp; case FIXROT: return fr; case LINE: return li; case LINK: return lk; case ROLL: return ro;
            case CLUTCH: return cl; case GEAR: return ge; case FRICTION: return rf; default: return cr;
        }
    }
    void bodies(int k, RigidBody *a, RigidBody *b) {
        switch (k) {
            case FIXPOS: fp.setBody(a); break; case FIXROT: fr.setBody(a); break; case LINE: li.setBody(a); break;
            case LINK: lk.setBody1(a); lk.setBody2(b); break; case ROLL: ro.setBaseBody(a); ro.setRollingBody(b); break;
            case CLUTCH: cl.setBody1(a); cl.setBody2(b); break; case GEAR: ge.setBody1(a); ge.setBody2(b); break;
            case FRICTION: rf.setBody(a); break; default: cr.setBody(a);
        }
    }
    void params(int k) {
        double ks = v_real("ks"), kd = v_real("kd"), lo = v_real("lo"), hi = v_real("hi");
        double a = v_real("pa"), b = v_real("pb"), c = v_real("pc"), d = v_real("pd"), e = v_real("pe"), f = v_real("pf");
        switch (k) {
            case FIXPOS: fp.setLocalPosition(a, b); fp.setWorldPosition(c, d); fp.m_ks = ks; fp.m_kd = kd; break;
            case FIXROT: fr.m_rotation = a; fr.m_ks = ks; fr.m_kd = kd; break;
            case LINE: li.m_local_x = a; li.m_local_y = b; li.m_p0_x = c; li.m_p0_y = d; li.m_dx = e; li.m_dy = f; li.m_ks = ks; li.m_kd = kd; break;
            case LINK: lk.setLocalPosition1(a, b); lk.setLocalPosition2(c, d); lk.m_maxForce = hi; lk.m_ks = ks; lk.m_kd = kd; break;
            case ROLL: ro.m_local_x = a; ro.m_local_y = b; ro.m_dx = c; ro.m_dy = d; ro.m_radius = e; ro.m_ks = ks; ro.m_kd = kd; break;
            case CLUTCH: cl.m_minTorque = lo; cl.m_maxTorque = hi; cl.m_ks = ks; cl.m_kd = kd; break;
            case GEAR: ge.m_ratio = a; ge.m_neutral = v_choice("neutral", 0, 1); ge.m_ks = ks; ge.m_kd = kd; break;
            case FRICTION: rf.m_minTorque = lo; rf.m_maxTorque = hi; rf.m_ks = ks; rf.m_kd = kd; break;
            default: cr.m_rotationSpeed = a; cr.m_minTorque = lo; cr.m_maxTorque = hi; cr.m_ks = ks; cr.m_kd = kd;
        }
    }
};
static inline int rowsOf(int k) { return k == FIXPOS || k == LINK || k == ROLL ? 2 : 1; }
static inline int bodiesOf(int k) { return k == LINK || k == ROLL || k == CLUTCH || k == GEAR ? 2 : 1; }
// slots anywhere among 300 bodies
enum { FAR_N = 300 };
static inline void farSlots(RigidBody *b, int nb) {
    static const int P[10][2] = { { 0, 299 }, { 299, 0 }, { 127, 128 }, { 128, 3 }, { 255, 256 }, { 256, 0 }, { 65, 257 }, { 298, 299 }, { 16, 31 }, { 100, 200 } };
    int z = v_choice("far", 0, 9);
    b[0].index = P[z][0];
    if (nb == 2) b[1].index = P[z][1];
}
// choose the slots of the attached bodies among n
static inline void slots(RigidBody *b, int nb, int n) {
    if (n == FAR_N) { farSlots(b, nb); return; }
    b[0].index = v_choice("slot0", 0, n - 1);
    if (nb == 2) { b[1].index = v_choice("slot1", 0, n - 1); v_assume(b[1].index != b[0].index); }
}
