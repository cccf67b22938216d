//! Executable reference model of the documented command shaping: low-pass filter, then rate
//! limiter, relative to the last commanded values in the state being answered.
use crate::m3::*;
use crate::wire::*;

pub const DT: f64 = 1e-3;
const EPS: f64 = 1e-3;
pub const J_JERK: [f64; 7] = [7500., 3750., 5000., 6250., 7500., 10000., 10000.];
pub const J_ACC: [f64; 7] = [15., 7.5, 10., 12.5, 15., 20., 20.];
pub const J_VEL: [f64; 7] = [2.175, 2.175, 2.175, 2.175, 2.61, 2.61, 2.61];
pub const T_LIM: [f64; 3] = [2.0, 13., 6500.];
pub const R_LIM: [f64; 3] = [2.5, 25., 12500.];
pub const E_LIM: [f64; 3] = [2.175, 10., 5000.];
pub const TAU_RATE: f64 = 1000.;

fn lim(vel: f64, acc: f64, jerk: f64) -> [f64; 3] {
    let a = acc - EPS;
    [vel - EPS - 1e-3 * DT * a, a, jerk - EPS]
}
pub fn gain(fc: f64) -> f64 {
    DT / (DT + 1. / (2. * std::f64::consts::PI * fc))
}
fn lp(y: f64, last: f64, fc: f64) -> f64 {
    if fc < 1000. {
        let g = gain(fc);
        g * y + (1. - g) * last
    } else {
        y
    }
}
/// also tells whether the velocity-dependent acceleration bound was the binding one
fn lim_vel(l: [f64; 3], v: f64, v0: f64, a0: f64) -> f64 {
    let [vm, am, jm] = l;
    let j = (((v - v0) / DT - a0) / DT).min(jm).max(-jm);
    let a = a0 + j * DT;
    let hi = ((jm / am) * (vm - v0)).min(am);
    let lo = ((jm / am) * (-vm - v0)).max(-am);
    v0 + a.min(hi).max(lo) * DT
}
fn lim_pos(l: [f64; 3], p: f64, p0: f64, v0: f64, a0: f64) -> f64 {
    p0 + lim_vel(l, (p - p0) / DT, v0, a0) * DT
}
fn lim_vec(l: [f64; 3], v: &V3, v0: &V3, a0: &V3) -> V3 {
    let [vm, am, jm] = l;
    let j = scale(&sub(&scale(&sub(v, v0), 1. / DT), a0), 1. / DT);
    let mut a = *a0;
    let jn = norm(&j);
    if jn > f64::EPSILON {
        a = add(&a, &scale(&j, jn.min(jm) * DT / jn));
    }
    let an = norm(&a);
    if an <= f64::EPSILON {
        return *v0;
    }
    let u = scale(&a, 1. / an);
    let d = dot(&u, v0);
    let dist = -d + (d * d - dot(v0, v0) + vm * vm).sqrt();
    let safe = ((jm / am) * dist).min(am);
    add(v0, &scale(&u, an.min(safe) * DT))
}
fn v3(a: &[f64]) -> V3 {
    [a[0], a[1], a[2]]
}
fn clean(t: &[f64; 16]) -> M3 {
    m_of(&q_of(&rot_of(t)))
}
pub fn q(s: &WireState, o: &[f64; 7], limit: bool, fc: f64) -> [f64; 7] {
    let (p0, v0, a0) = (s.arr::<7>(Q_D), s.arr::<7>(DQ_D), s.arr::<7>(DDQ_D));
    let mut r = *o;
    for i in 0..7 {
        r[i] = lp(o[i], p0[i], fc);
        if limit {
            r[i] = lim_pos(lim(J_VEL[i], J_ACC[i], J_JERK[i]), r[i], p0[i], v0[i], a0[i]);
        }
    }
    r
}
pub fn dq(s: &WireState, o: &[f64; 7], limit: bool, fc: f64) -> [f64; 7] {
    let (v0, a0) = (s.arr::<7>(DQ_D), s.arr::<7>(DDQ_D));
    let mut r = *o;
    for i in 0..7 {
        r[i] = lp(o[i], v0[i], fc);
        if limit {
            r[i] = lim_vel(lim(J_VEL[i], J_ACC[i], J_JERK[i]), r[i], v0[i], a0[i]);
        }
    }
    r
}
pub fn tau(s: &WireState, o: &[f64; 7], limit: bool, fc: f64) -> [f64; 7] {
    let t0 = s.arr::<7>(TAU_J_D);
    let m = TAU_RATE - EPS;
    let mut r = *o;
    for i in 0..7 {
        r[i] = lp(o[i], t0[i], fc);
        if limit {
            r[i] = t0[i] + ((r[i] - t0[i]) / DT).min(m).max(-m) * DT;
        }
    }
    r
}
pub fn elbow(s: &WireState, o: &[f64; 2], limit: bool, fc: f64) -> [f64; 2] {
    let e0 = s.f[ELBOW_C];
    let mut r = *o;
    r[0] = lp(o[0], e0, fc);
    if limit {
        r[0] = lim_pos(lim(E_LIM[0], E_LIM[1], E_LIM[2]), r[0], e0, s.f[DELBOW_C], s.f[DDELBOW_C]);
    }
    r
}
pub fn twist(s: &WireState, o: &[f64; 6], limit: bool, fc: f64) -> [f64; 6] {
    let (v0, a0) = (s.arr::<6>(O_DP_EE_C), s.arr::<6>(O_DDP_EE_C));
    let mut r = *o;
    for i in 0..6 {
        r[i] = lp(o[i], v0[i], fc);
    }
    if limit {
        let h = lim_vec(lim(T_LIM[0], T_LIM[1], T_LIM[2]), &v3(&r), &v3(&v0), &v3(&a0));
        let t = lim_vec(lim(R_LIM[0], R_LIM[1], R_LIM[2]), &v3(&r[3..]), &v3(&v0[3..]), &v3(&a0[3..]));
        r = [h[0], h[1], h[2], t[0], t[1], t[2]];
    }
    r
}
pub fn pose(s: &WireState, o: &[f64; 16], limit: bool, fc: f64) -> [f64; 16] {
    let last = s.arr::<16>(O_T_EE_C);
    let mut r = *o;
    if fc < 1000. {
        let g = gain(fc);
        let (a, b) = (trans_of(&last), trans_of(o));
        let p = add(&scale(&b, g), &scale(&a, 1. - g));
        r = make_t(&slerp(&clean(&last), &clean(o), g), &p);
    }
    if limit {
        let (v0, a0) = (s.arr::<6>(O_DP_EE_C), s.arr::<6>(O_DDP_EE_C));
        let dx = scale(&sub(&trans_of(&r), &trans_of(&last)), 1. / DT);
        let rl = clean(&last);
        let w = scale(&rot_log(&mul(&clean(&r), &tr(&rl))), 1. / DT);
        let h = lim_vec(lim(T_LIM[0], T_LIM[1], T_LIM[2]), &dx, &v3(&v0), &v3(&a0));
        let l = lim(R_LIM[0], R_LIM[1], R_LIM[2]);
        let t = lim_vec([l[0] * 0.99, l[1] * 0.99, l[2] * 0.99], &w, &v3(&v0[3..]), &v3(&a0[3..]));
        let p = add(&trans_of(&last), &scale(&h, DT));
        r = make_t(&mul(&rot_exp(&scale(&t, DT)), &rl), &p);
    }
    r
}
