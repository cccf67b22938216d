//! The simulated client processes: they run the workload of the plan against the real library.
use crate::hist::*;
use crate::m3::*;
use crate::model_stub::eval;
use crate::plan::*;
use crate::rng::*;
use crate::sys::ip_str;
use crate::wire::*;
use crate::world::*;
use franka::exception::FrankaException;
use franka::{
    CartesianPose, CartesianVelocities, ControllerMode, Frame, Gripper, JointPositions, JointVelocities, Model,
    MotionFinished, RealtimeConfig, Robot, RobotState, Torques,
};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

thread_local! {
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if ME.with(|m| m.get()) == usize::MAX {
            eprintln!("harness panic: {}", i);
            return;
        }
        let _g = InSim::new();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

fn put(f: &mut [f64; NF], off: usize, v: &[f64]) {
    f[off..off + v.len()].copy_from_slice(v);
}
fn errs(e: &franka::robot::errors::FrankaErrors) -> Vec<usize> {
    e.franka_errors
        .iter()
        .map(|x| {
            let n = format!("{:?}", x);
            ERROR_NAMES.iter().position(|y| *y == n).unwrap_or(999)
        })
        .collect()
}
pub fn view(s: &RobotState) -> View {
    let mut f = Box::new([0.; NF]);
    let m = &mut *f;
    put(m, O_T_EE, &s.O_T_EE);
    put(m, O_T_EE_D, &s.O_T_EE_d);
    put(m, F_T_EE, &s.F_T_EE);
    put(m, EE_T_K, &s.EE_T_K);
    put(m, F_T_NE, &s.F_T_NE);
    put(m, NE_T_EE, &s.NE_T_EE);
    m[M_EE] = s.m_ee;
    put(m, I_EE, &s.I_ee);
    put(m, F_X_CEE, &s.F_x_Cee);
    m[M_LOAD] = s.m_load;
    put(m, I_LOAD, &s.I_load);
    put(m, F_X_CLOAD, &s.F_x_Cload);
    put(m, ELBOW, &s.elbow);
    put(m, ELBOW_D, &s.elbow_d);
    put(m, TAU_J, &s.tau_J);
    put(m, TAU_J_D, &s.tau_J_d);
    put(m, DTAU_J, &s.dtau_J);
    put(m, Q, &s.q);
    put(m, Q_D, &s.q_d);
    put(m, DQ, &s.dq);
    put(m, DQ_D, &s.dq_d);
    put(m, DDQ_D, &s.ddq_d);
    put(m, JOINT_CONTACT, &s.joint_contact);
    put(m, CART_CONTACT, &s.cartesian_contact);
    put(m, JOINT_COLL, &s.joint_collision);
    put(m, CART_COLL, &s.cartesian_collision);
    put(m, TAU_EXT, &s.tau_ext_hat_filtered);
    put(m, O_F_EXT, &s.O_F_ext_hat_K);
    put(m, K_F_EXT, &s.K_F_ext_hat_K);
    put(m, O_DP_EE_D, &s.O_dP_EE_d);
    put(m, O_DDP_O, &s.O_ddP_O);
    put(m, ELBOW_C, &s.elbow_c);
    put(m, DELBOW_C, &s.delbow_c);
    put(m, DDELBOW_C, &s.ddelbow_c);
    put(m, O_T_EE_C, &s.O_T_EE_c);
    put(m, O_DP_EE_C, &s.O_dP_EE_c);
    put(m, O_DDP_EE_C, &s.O_ddP_EE_c);
    put(m, THETA, &s.theta);
    put(m, DTHETA, &s.dtheta);
    let mode = match format!("{:?}", s.robot_mode).as_str() {
        "Other" => RM_OTHER,
        "Idle" => RM_IDLE,
        "Move" => RM_MOVE,
        "Guiding" => RM_GUIDING,
        "Reflex" => RM_REFLEX,
        "UserStopped" => RM_USERSTOP,
        "AutomaticErrorRecovery" => RM_RECOVERY,
        _ => 99,
    };
    View {
        m_total: s.m_total,
        i_total: s.I_total,
        fx_total: s.F_x_Ctotal,
        errors: errs(&s.current_errors),
        last_errors: errs(&s.last_motion_errors),
        mode,
        rate: s.control_command_success_rate,
        time_ns: s.time.as_nanos(),
        f,
    }
}
fn err(e: FrankaException) -> Outcome {
    let m = e.to_string();
    let k = match e {
        FrankaException::ControlException { log, .. } => ErrK::Control {
            log: log.map(|l| {
                l.iter()
                    .map(|r| {
                        (
                            view(&r.state),
                            LogRow {
                                q: r.command.joint_positions.q,
                                dq: r.command.joint_velocities.dq,
                                pose: r.command.cartesian_pose.O_T_EE,
                                twist: r.command.cartesian_velocities.O_dP_EE,
                                tau: r.command.torques.tau_J,
                            },
                        )
                    })
                    .collect()
            }),
        },
        FrankaException::IncompatibleLibraryVersionError { server_version, library_version } => {
            ErrK::Incompatible { server: server_version, lib: library_version }
        }
        FrankaException::NoMotionGeneratorRunningError => ErrK::NoMotionGen,
        FrankaException::NoControllerRunningError => ErrK::NoController,
        FrankaException::PartialCommandError => ErrK::Partial,
        FrankaException::NetworkException { .. } => ErrK::Network,
        FrankaException::CommandException { .. } => ErrK::Command,
        FrankaException::ModelException { .. } => ErrK::Model,
        FrankaException::RealTimeException { .. } => ErrK::RealTime,
    };
    Outcome::Err(k, m)
}
fn unit_out(r: Result<(), FrankaException>) -> Outcome {
    match r {
        Ok(()) => Outcome::Ok(Val::Unit),
        Err(e) => err(e),
    }
}
fn bool_out(r: Result<bool, FrankaException>) -> Outcome {
    match r {
        Ok(b) => Outcome::Ok(Val::Bool(b)),
        Err(e) => err(e),
    }
}

/// what the scripted user callback returns
struct Gen {
    m: MotionOp,
    r: Rng,
    base_q: Option<[f64; 7]>,
    base_t: [f64; 16],
    base_el: [f64; 2],
    base_tau: [f64; 7],
    k: u32, // motion callbacks so far
    kt: u32,
}
impl Gen {
    fn shape(&mut self, k: u32, comp: u64, base: f64, cur: f64) -> f64 {
        let a = self.m.amp;
        let h = h3(self.m.pseed, comp, k as u64);
        let sgn = if h3(self.m.pseed, 900 + comp, 0) & 1 == 0 { 1. } else { -1. };
        let t = k as f64 * 1e-3;
        match self.m.prof {
            0 => base,
            1 => base + sgn * a * (1. - (std::f64::consts::PI * t / 0.15).cos()) / 2.,
            2 => {
                if k >= 3 + (h3(self.m.pseed, 901, comp) % 5) as u32 {
                    base + sgn * a
                } else {
                    base
                }
            }
            3 => base + a * (unit(h) * 2. - 1.),
            4 => base + a * (k as f64 * (0.3 + comp as f64 * 0.35)).sin(),
            5 => (unit(h) * 2. - 1.) * 1e3 * a,
            6 => base + sgn * a * t * 10.,
            // far ahead in a direction that turns
            8 => {
                let w = (unit(h3(self.m.pseed, 902, 0)) * 6. - 0.7).exp();
                base + a * 100. * (w * t + comp as f64 * std::f64::consts::FRAC_PI_2).cos()
            }
            // to and fro between extremes
            9 => {
                let dwell = 1 + h3(self.m.pseed, 903, comp) % 250;
                let s = if h3(self.m.pseed, 904 + comp, k as u64 / dwell) & 1 == 0 { 1. } else { -1. };
                base + s * a * 100.
            }
            _ => cur + a * 0.02 * (unit(h) * 2. - 1.),
        }
    }
    fn arr7(&mut self, k: u32, stream: u64, base: &[f64; 7], cur: &[f64; 7], scale: f64) -> [f64; 7] {
        let mut o = [0.; 7];
        let a = self.m.amp;
        self.m.amp = a * scale;
        for i in 0..7 {
            o[i] = self.shape(k, stream + i as u64, base[i], cur[i]);
        }
        self.m.amp = a;
        o
    }
    fn start(&mut self, s: &RobotState) {
        if self.base_q.is_none() {
            self.base_q = Some(s.q_d);
            self.base_t = s.O_T_EE_c;
            self.base_el = s.elbow_c;
            self.base_tau = s.tau_J_d;
        }
    }
    fn inv(&self, k: u32, torque: bool) -> Option<Invalid> {
        self.m.invalid.clone().filter(|i| i.at == k && i.in_torque == torque)
    }
    fn bad(kind: u8) -> f64 {
        match kind {
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            _ => f64::NAN,
        }
    }
    fn q(&mut self, s: &RobotState) -> ([f64; 7], bool) {
        self.start(s);
        let b = self.base_q.unwrap();
        let k = self.k;
        let mut o = self.arr7(k, 10, &b, &s.q_d, 1.);
        if let Some(i) = self.inv(k, false) {
            o[i.comp as usize % 7] = Gen::bad(i.kind);
            return (o, true);
        }
        (o, false)
    }
    fn dq(&mut self, s: &RobotState) -> ([f64; 7], bool) {
        self.start(s);
        let k = self.k;
        let mut o = self.arr7(k, 30, &[0.; 7], &s.dq_d, 2.);
        if let Some(i) = self.inv(k, false) {
            o[i.comp as usize % 7] = Gen::bad(i.kind);
            return (o, true);
        }
        (o, false)
    }
    fn tau(&mut self, s: &RobotState) -> ([f64; 7], bool) {
        self.start(s);
        let b = self.base_tau;
        let k = self.kt;
        let mut o = self.arr7(k, 50, &b, &s.tau_J_d, 10.);
        if let Some(i) = self.inv(k, true) {
            o[i.comp as usize % 7] = Gen::bad(i.kind);
            return (o, true);
        }
        (o, false)
    }
    fn elbow(&mut self, s: &RobotState) -> Option<[f64; 2]> {
        let k = self.k;
        let on = match self.m.elbow {
            0 => false,
            1 => true,
            _ => h3(self.m.pseed, 77, k as u64 / 3) & 1 == 0,
        };
        if !on {
            return None;
        }
        let b = self.base_el[0];
        let v = self.shape(k, 90, b, s.elbow_c[0]);
        let sg = if h3(self.m.pseed, 78, 0) & 1 == 0 { self.base_el[1] } else { -self.base_el[1] };
        Some([v, sg])
    }
    fn elbow_inv(&mut self, s: &RobotState, i: &Invalid, el: &mut Option<[f64; 2]>, comp: usize) {
        let mut e = el.unwrap_or([s.elbow_c[0], 1.]);
        if i.kind == 4 {
            e[1] = [0.5, 0., 2., -1.0000001, f64::NAN][i.comp as usize % 5];
            match h3(self.m.pseed, 79, i.comp as u64) % 4 {
                0 => e[0] = 1.,
                1 => e[0] = -1.,
                _ => {}
            }
        } else {
            e[comp & 1] = Gen::bad(i.kind);
        }
        *el = Some(e);
    }
    fn pose(&mut self, s: &RobotState) -> ([f64; 16], Option<[f64; 2]>, bool) {
        self.start(s);
        let k = self.k;
        let bt = self.base_t;
        let mut p = [0.; 3];
        let mut v = [0.; 3];
        let cur = s.O_T_EE_c;
        for i in 0..3 {
            p[i] = self.shape(k, 70 + i as u64, bt[12 + i], cur[12 + i]);
            v[i] = self.shape(k, 80 + i as u64, 0., 0.);
        }
        let vb = norm(&v);
        if vb > 3.0 {
            v = scale(&v, 3.0 / vb);
        }
        let from = if self.m.prof == 7 { rot_of(&cur) } else { rot_of(&bt) };
        // from rest on the base orientation itself is used bit for bit
        let rot = if norm(&v) == 0. { from } else { m_of(&q_of(&mul(&rot_exp(&v), &from))) };
        let mut t = make_t(&rot, &p);
        // numbers of limited precision still make a valid transformation
        let raw = self.m.limit == Some(false) && self.m.cutoff.map(|c| c >= 1000.).unwrap_or(false);
        if raw && h3(self.m.pseed, 90, 0) % 4 == 0 {
            for c in 0..3 {
                for r in 0..3 {
                    t[4 * c + r] += 6e-6 * (unit(h3(self.m.pseed, 91 + k as u64, (3 * c + r) as u64)) - 0.5);
                }
            }
        }
        let mut el = self.elbow(s);
        if let Some(i) = self.inv(k, false) {
            let c = i.comp as usize % 18;
            match i.kind {
                3 => match i.comp {
                    0 | 1 => {
                        // a column, or a row, of another length
                        let f = [1.01, 0.99, 1.0001, -0.5, 1.00004, 0.999][h3(self.m.pseed, 80, 0) as usize % 6];
                        let c = h3(self.m.pseed, 81, 0) as usize % 3;
                        for x in 0..3 {
                            t[if i.comp == 0 { 4 * c + x } else { c + 4 * x }] *= f;
                        }
                    }
                    2..=4 => t[[3, 7, 11][i.comp as usize - 2]] = [1e-3, -1e-9, 0.5, 1.][h3(self.m.pseed, 82, 0) as usize % 4],
                    5 | 6 => t[15] = [2., 0., -1., 1. + 1e-9][h3(self.m.pseed, 83, 0) as usize % 4],
                    7 | 8 => {
                        // mirrored
                        let c = h3(self.m.pseed, 84, 0) as usize % 3;
                        for x in 0..3 {
                            let k = if i.comp == 7 { 4 * c + x } else { c + 4 * x };
                            t[k] = -t[k];
                        }
                    }
                    9..=12 => {
                        // every row and column of unit length, yet no right angles between them
                        let f = 1. / 3f64.sqrt();
                        let m = [[f, f, f], [f, -f, f], [f, f, -f]];
                        let sg = if h3(self.m.pseed, 85, 0) & 1 == 0 { 1. } else { -1. };
                        let p = h3(self.m.pseed, 86, 0) as usize % 3;
                        for c in 0..3 {
                            for r in 0..3 {
                                t[4 * c + r] = sg * m[r][(c + p) % 3];
                            }
                        }
                    }
                    13 => {
                        // the mean of two columns twice
                        for r in 0..3 {
                            let v = (t[r] + t[4 + r]) / 2f64.sqrt();
                            t[r] = v;
                            t[4 + r] = v;
                        }
                    }
                    14 => {
                        // the transposed matrix, translation in the bottom row
                        let u = t;
                        for c in 0..4 {
                            for r in 0..4 {
                                t[4 * c + r] = u[4 * r + c];
                            }
                        }
                        if t[3] == 0. && t[7] == 0. && t[11] == 0. {
                            t[3] = 0.1;
                        }
                    }
                    _ => t = [0.; 16],
                },
                4 => self.elbow_inv(s, &i, &mut el, 1),
                _ if c >= 16 => self.elbow_inv(s, &i, &mut el, c),
                _ => t[c] = Gen::bad(i.kind),
            }
            return (t, el, true);
        }
        (t, el, false)
    }
    fn twist(&mut self, s: &RobotState) -> ([f64; 6], Option<[f64; 2]>, bool) {
        self.start(s);
        let k = self.k;
        let mut o = [0.; 6];
        for i in 0..6 {
            o[i] = self.shape(k, 110 + i as u64, 0., s.O_dP_EE_c[i]);
        }
        let mut el = self.elbow(s);
        if let Some(i) = self.inv(k, false) {
            let c = i.comp as usize % 8;
            if i.kind == 4 || (c >= 6 && i.kind < 3) {
                self.elbow_inv(s, &i, &mut el, c);
            } else {
                o[c.min(5)] = Gen::bad(i.kind);
            }
            return (o, el, true);
        }
        (o, el, false)
    }
    fn work(&mut self) -> u64 {
        let w = self.m.work.clone();
        work_ns(&w, &mut self.r, self.k)
    }
}
fn work_ns(w: &Work, r: &mut Rng, k: u32) -> u64 {
    let mut n = w.base + if w.jitter > 0 { r.below(w.jitter) } else { 0 };
    if w.spike_every > 0 && k > 0 && k % w.spike_every == 0 {
        n += w.spike;
    }
    n
}
fn cb_enter(read: bool) -> (u64, u64) {
    with(|w, me| {
        let _ = read;
        w.clients[me].ncb += 1;
        let n = w.clients[me].ncb;
        w.trigger(|t| match t {
            Trig::Cb { client, n: k } if *client == me && *k == n => Some(0),
            _ => None,
        });
        (w.now, w.nseq())
    })
}
#[allow(clippy::too_many_arguments)]
fn cb_leave(op: usize, kind: CbKind, t0: (u64, u64), s: &RobotState, dt: Option<&Duration>, out: CbOut, fin: bool, invalid: bool, work: u64) {
    with(|w, me| {
        if work > 0 {
            w.sleep(me, work);
        }
        let (t1, s1) = (w.now, w.nseq());
        let conn = w.clients[me].conn.unwrap_or(usize::MAX);
        w.tr(61, s.time.as_millis() as u64);
        w.note(|| format!("client {} callback {:?} state {} dt {:?} finish {}", me, kind, s.time.as_millis(), dt, fin));
        w.hist.cbs.push(CbRec {
            client: me,
            op,
            conn,
            kind,
            t0: t0.0,
            s0: t0.1,
            t1,
            s1,
            view: Box::new(view(s)),
            dt_ns: dt.map(|d| d.as_nanos()),
            out,
            fin,
            invalid,
        });
    })
}

fn cmp(name: &str, got: &[f64], want: &[f64], bad: &mut Vec<String>) {
    for i in 0..want.len() {
        let tol = 1e-9;
        if got.len() != want.len() || !((got[i] - want[i]).abs() <= tol) {
            bad.push(format!("{}: component {} is {:e}, the library computes {:e}", name, i, got.get(i).copied().unwrap_or(f64::NAN), want[i]));
            return;
        }
    }
}
fn mat_mul(a: &[f64; 16], b: &[f64; 16]) -> [f64; 16] {
    let mut o = [0.; 16];
    for c in 0..4 {
        for r in 0..4 {
            o[c * 4 + r] = (0..4).map(|k| a[k * 4 + r] * b[c * 4 + k]).sum();
        }
    }
    o
}
/// evaluate every quantity on a state and compare with what the stub library computes from the
/// values of that very state
pub fn check_model(m: &Model, s: &RobotState, sel: u64) -> Vec<String> {
    let mut bad = vec![];
    let frames: [(Frame, &str); 10] = [
        (Frame::Joint1, "J1"),
        (Frame::Joint2, "J2"),
        (Frame::Joint3, "J3"),
        (Frame::Joint4, "J4"),
        (Frame::Joint5, "J5"),
        (Frame::Joint6, "J6"),
        (Frame::Joint7, "J7"),
        (Frame::Flange, "J8"),
        (Frame::EndEffector, "J9"),
        (Frame::Stiffness, "J9"),
    ];
    let fk = mat_mul(&s.F_T_EE, &s.EE_T_K);
    // explicit-argument variants get arguments of their own
    let mut r = Rng::new(sel, 41);
    let mut q2 = [0.; 7];
    let mut dq2 = [0.; 7];
    for i in 0..7 {
        q2[i] = r.uni(-3., 3.);
        dq2[i] = r.uni(-3., 3.);
    }
    let mk = |r: &mut Rng| {
        let v = [r.uni(-2., 2.), r.uni(-2., 2.), r.uni(-2., 2.)];
        make_t(&rot_exp(&v), &[r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.)])
    };
    let (ft2, ek2) = (mk(&mut r), mk(&mut r));
    let fk2 = mat_mul(&ft2, &ek2);
    for (i, (f, j)) in frames.iter().enumerate() {
        let a: Vec<&[f64]> = match i {
            8 => vec![&s.q, &s.F_T_EE],
            9 => vec![&s.q, &fk],
            _ => vec![&s.q],
        };
        let a2: Vec<&[f64]> = match i {
            8 => vec![&q2, &ft2],
            9 => vec![&q2, &fk2],
            _ => vec![&q2],
        };
        let (ja, ja2): (Vec<&[f64]>, Vec<&[f64]>) = if i == 0 { (vec![], vec![]) } else { (a.clone(), a2.clone()) };
        cmp(&format!("pose of frame {}", i), &m.pose_from_state(f, s), &eval(&format!("O_T_{}", j), &a, 16), &mut bad);
        cmp(&format!("body Jacobian of frame {}", i), &m.body_jacobian_from_state(f, s), &eval(&format!("Ji_J_{}", j), &ja, 42), &mut bad);
        cmp(&format!("zero Jacobian of frame {}", i), &m.zero_jacobian_from_state(f, s), &eval(&format!("O_J_{}", j), &ja, 42), &mut bad);
        cmp(&format!("pose of frame {} (explicit)", i), &m.pose(f, &q2, &ft2, &ek2), &eval(&format!("O_T_{}", j), &a2, 16), &mut bad);
        cmp(&format!("body Jacobian of frame {} (explicit)", i), &m.body_jacobian(f, &q2, &ft2, &ek2), &eval(&format!("Ji_J_{}", j), &ja2, 42), &mut bad);
        cmp(&format!("zero Jacobian of frame {} (explicit)", i), &m.zero_jacobian(f, &q2, &ft2, &ek2), &eval(&format!("O_J_{}", j), &ja2, 42), &mut bad);
    }
    let mut i2 = [0.; 9];
    for x in i2.iter_mut() {
        *x = r.uni(-1., 1.);
    }
    let m2 = r.uni(0., 5.);
    let x2 = [r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.)];
    let g2 = [r.uni(-10., 10.), r.uni(-10., 10.), r.uni(-10., 10.)];
    let g0 = [0., 0., -9.81];
    cmp("mass matrix", &m.mass_from_state(s), &eval("M_NE", &[&s.q, &s.I_total, &[s.m_total], &s.F_x_Ctotal], 49), &mut bad);
    cmp("mass matrix (explicit)", &m.mass(&q2, &i2, m2, &x2), &eval("M_NE", &[&q2, &i2, &[m2], &x2], 49), &mut bad);
    cmp("Coriolis vector", &m.coriolis_from_state(s), &eval("c_NE", &[&s.q, &s.dq, &s.I_total, &[s.m_total], &s.F_x_Ctotal], 7), &mut bad);
    cmp("Coriolis vector (explicit)", &m.coriolis(&q2, &dq2, &i2, m2, &x2), &eval("c_NE", &[&q2, &dq2, &i2, &[m2], &x2], 7), &mut bad);
    cmp("gravity vector", &m.gravity_from_state(s, None), &eval("g_NE", &[&s.q, &s.O_ddP_O, &[s.m_total], &s.F_x_Ctotal], 7), &mut bad);
    cmp("gravity vector with given gravity", &m.gravity_from_state(s, &g2), &eval("g_NE", &[&s.q, &g2, &[s.m_total], &s.F_x_Ctotal], 7), &mut bad);
    cmp("gravity vector (explicit)", &m.gravity(&q2, m2, &x2, &g2), &eval("g_NE", &[&q2, &g2, &[m2], &x2], 7), &mut bad);
    cmp("gravity vector (explicit, default gravity)", &m.gravity(&q2, m2, &x2, None), &eval("g_NE", &[&q2, &g0, &[m2], &x2], 7), &mut bad);
    bad
}
fn note_model(op: usize, bad: Vec<String>) {
    with(|w, me| {
        w.hist.eval_n += 1;
        for b in bad {
            w.hist.eval_bad.push((me, op, b));
        }
    });
}

#[derive(Default)]
struct Session {
    robot: Option<Robot>,
    grip: Option<Gripper>,
    model: Option<Model>,
}

fn motion(robot: &mut Robot, model: Option<&Model>, op: usize, m: &MotionOp) -> Outcome {
    let g = RefCell::new(Gen {
        m: m.clone(),
        r: Rng::new(m.pseed, 3),
        base_q: None,
        base_t: [0.; 16],
        base_el: [0.; 2],
        base_tau: [0.; 7],
        k: 0,
        kt: 0,
    });
    let fin_m = !m.finish_by_torque && !m.pure_torque;
    let pure = m.pure_torque;
    macro_rules! mcb {
        ($gen:ident, $mk:expr, $rec:expr) => {
            |s: &RobotState, dt: &Duration| {
                let t0 = cb_enter(false);
                let mut g = g.borrow_mut();
                let o = g.$gen(s);
                let fin = fin_m && g.k + 1 >= g.m.n;
                let work = g.work();
                if let (true, Some(md)) = (g.m.model, model) {
                    note_model(op, check_model(md, s, g.m.pseed ^ g.k as u64));
                }
                g.k += 1;
                let (rec, invalid) = $rec(o);
                cb_leave(op, CbKind::Motion, t0, s, Some(dt), rec, fin, invalid, work);
                let out = $mk(o);
                if fin {
                    out.motion_finished()
                } else {
                    out
                }
            }
        };
    }
    macro_rules! jp {
        () => {
            mcb!(q, |o: ([f64; 7], bool)| JointPositions::new(o.0), |o: ([f64; 7], bool)| (CbOut::Q(o.0), o.1))
        };
    }
    macro_rules! jv {
        () => {
            mcb!(dq, |o: ([f64; 7], bool)| JointVelocities::new(o.0), |o: ([f64; 7], bool)| (CbOut::Dq(o.0), o.1))
        };
    }
    macro_rules! cp {
        () => {
            mcb!(pose, |o: ([f64; 16], Option<[f64; 2]>, bool)| CartesianPose::new(o.0, o.1), |o: (
                [f64; 16],
                Option<[f64; 2]>,
                bool
            )| (CbOut::Pose(o.0, o.1), o.2))
        };
    }
    macro_rules! cv {
        () => {
            mcb!(twist, |o: ([f64; 6], Option<[f64; 2]>, bool)| CartesianVelocities::new(o.0, o.1), |o: (
                [f64; 6],
                Option<[f64; 2]>,
                bool
            )| (CbOut::Twist(o.0, o.1), o.2))
        };
    }
    let tcb = |s: &RobotState, dt: &Duration| {
        let t0 = cb_enter(false);
        let mut g = g.borrow_mut();
        let (o, invalid) = g.tau(s);
        let fin = !fin_m && g.kt + 1 >= g.m.n;
        let work = if pure { g.work() } else { 0 };
        if let (true, true, Some(md)) = (pure, g.m.model, model) {
            note_model(op, check_model(md, s, g.m.pseed ^ g.kt as u64));
        }
        g.kt += 1;
        if pure {
            g.k += 1;
        }
        cb_leave(op, CbKind::Torque, t0, s, Some(dt), CbOut::Tau(o), fin, invalid, work);
        let out = Torques::new(o);
        if fin {
            out.motion_finished()
        } else {
            out
        }
    };
    let cm = || m.ctrl.map(|c| if c == 0 { ControllerMode::JointImpedance } else { ControllerMode::CartesianImpedance });
    let (l, c) = (m.limit, m.cutoff);
    let r = if m.pure_torque {
        robot.control_torques(tcb, l, c)
    } else if m.torque {
        match m.kind {
            MK::JP => robot.control_torques_and_joint_positions(tcb, jp!(), l, c),
            MK::JV => robot.control_torques_and_joint_velocities(tcb, jv!(), l, c),
            MK::CP => robot.control_torques_and_cartesian_pose(tcb, cp!(), l, c),
            MK::CV => robot.control_torques_and_cartesian_velocities(tcb, cv!(), l, c),
        }
    } else {
        match m.kind {
            MK::JP => robot.control_joint_positions(jp!(), cm(), l, c),
            MK::JV => robot.control_joint_velocities(jv!(), cm(), l, c),
            MK::CP => robot.control_cartesian_pose(cp!(), cm(), l, c),
            MK::CV => robot.control_cartesian_velocities(cv!(), cm(), l, c),
        }
    };
    unit_out(r)
}

fn a7(v: &[f64], o: usize) -> [f64; 7] {
    let mut a = [0.; 7];
    a.copy_from_slice(&v[o..o + 7]);
    a
}
fn a6(v: &[f64], o: usize) -> [f64; 6] {
    let mut a = [0.; 6];
    a.copy_from_slice(&v[o..o + 6]);
    a
}
fn a16(v: &[f64]) -> [f64; 16] {
    let mut a = [0.; 16];
    a.copy_from_slice(&v[..16]);
    a
}

fn do_op(se: &mut Session, op: usize, o: &Op) -> Outcome {
    match o {
        Op::Connect { srv, by_name, enforce, log_size } => {
            se.robot = None;
            se.grip = None;
            let (addr, gr) = with(|w, me| {
                w.clients[me].conn = None;
                let s = &w.plan.servers[*srv];
                (if *by_name { s.host.clone() } else { ip_str(s.ip) }, s.gripper)
            });
            if gr {
                match Gripper::new(&addr) {
                    Ok(g) => {
                        let v = g.server_version();
                        se.grip = Some(g);
                        Outcome::Ok(Val::Version(v))
                    }
                    Err(e) => err(e),
                }
            } else {
                let rt = enforce.map(|e| if e { RealtimeConfig::Enforce } else { RealtimeConfig::Ignore });
                match Robot::new(&addr, rt, *log_size) {
                    Ok(r) => {
                        let v = r.server_version();
                        se.robot = Some(r);
                        Outcome::Ok(Val::Version(v))
                    }
                    Err(e) => err(e),
                }
            }
        }
        Op::Disconnect => {
            se.robot = None;
            se.grip = None;
            Outcome::Ok(Val::Unit)
        }
        Op::Sleep { ns } => {
            with(|w, me| w.sleep(me, *ns));
            Outcome::Ok(Val::Unit)
        }
        Op::Rt(c) => {
            with(|w, me| w.clients[me].rt = c.clone());
            Outcome::Ok(Val::Unit)
        }
        Op::Foreign { srv, mg, cm, mode } => {
            with(|w, _| w.servers[*srv].foreign = if *mg == 0 && *cm != CM_EXTERNAL { None } else { Some((*mg, *cm, *mode)) });
            Outcome::Ok(Val::Unit)
        }
        Op::GRead | Op::GHoming { .. } | Op::GMove { .. } | Op::GGrasp { .. } | Op::GStop { .. } | Op::GVersion => {
            let Some(g) = se.grip.as_mut() else { return Outcome::Skipped };
            match o {
                Op::GRead => match g.read_once() {
                    Ok(s) => Outcome::Ok(Val::Grip {
                        width: s.width,
                        max_width: s.max_width,
                        grasped: s.is_grasped,
                        temp: s.temperature,
                        time_ns: s.time.as_nanos(),
                    }),
                    Err(e) => err(e),
                },
                Op::GHoming { .. } => bool_out(g.homing()),
                Op::GMove { w, s, .. } => bool_out(g.move_gripper(*w, *s)),
                Op::GGrasp { w, s, f, ei, eo, .. } => bool_out(g.grasp(*w, *s, *f, *ei, *eo)),
                Op::GStop { .. } => bool_out(g.stop()),
                _ => Outcome::Ok(Val::Version(g.server_version())),
            }
        }
        _ => {
            let Some(r) = se.robot.as_mut() else { return Outcome::Skipped };
            match o {
                Op::ReadOnce => match r.read_once() {
                    Ok(s) => Outcome::Ok(Val::State(Box::new(view(&s)))),
                    Err(e) => err(e),
                },
                Op::Read { n, work } => {
                    let mut k = 0;
                    let mut rg = Rng::new(op as u64 + 7 * *n as u64, 71);
                    unit_out(r.read(|s| {
                        let t0 = cb_enter(true);
                        k += 1;
                        let wk = work_ns(work, &mut rg, k);
                        cb_leave(op, CbKind::Read, t0, s, None, CbOut::None, k >= *n, false, wk);
                        k < *n
                    }))
                }
                Op::Set { what, .. } => unit_out(match what {
                    Setter::Collision(v) => r.set_collision_behavior(
                        a7(v, 0),
                        a7(v, 7),
                        a7(v, 14),
                        a7(v, 21),
                        a6(v, 28),
                        a6(v, 34),
                        a6(v, 40),
                        a6(v, 46),
                    ),
                    Setter::JointImp(v) => r.set_joint_impedance(*v),
                    Setter::CartImp(v) => r.set_cartesian_impedance(*v),
                    Setter::Guiding(a, b) => r.set_guiding_mode(*a, *b),
                    Setter::K(v) => r.set_K(a16(v)),
                    Setter::EE(v) => r.set_EE(a16(v)),
                    Setter::Load(m, x, i) => r.set_load(*m, *x, *i),
                    Setter::Filters(f) => r.set_filters(f[0], f[1], f[2], f[3], f[4]),
                }),
                Op::SetDefault { .. } => unit_out(r.set_default_behavior()),
                Op::Recovery { .. } => unit_out(r.automatic_error_recovery()),
                Op::Stop { .. } => unit_out(r.stop()),
                Op::Wall { id, .. } => match r.get_virtual_wall(*id) {
                    Ok(w) => Outcome::Ok(Val::Wall(Box::new(Wall { id: w.id, size: w.object_world_size, frame: w.p_frame, active: w.active }))),
                    Err(e) => err(e),
                },
                Op::Motion(m) => motion(r, se.model.as_ref(), op, m),
                Op::JointMotion { speed, goal, .. } => unit_out(r.joint_motion(*speed, goal)),
                Op::LoadModel { persistent, .. } => match r.load_model(*persistent) {
                    Ok(m) => {
                        se.model = Some(m);
                        Outcome::Ok(Val::Unit)
                    }
                    Err(e) => err(e),
                },
                Op::EvalModel { n, gseed } => {
                    let Some(m) = se.model.as_ref() else { return Outcome::Skipped };
                    for k in 0..*n {
                        let s = match r.read_once() {
                            Ok(s) => s,
                            Err(e) => return err(e),
                        };
                        let t0 = cb_enter(true);
                        note_model(op, check_model(m, &s, gseed ^ (k as u64) << 32));
                        cb_leave(op, CbKind::Read, t0, &s, None, CbOut::None, k + 1 == *n, false, 0);
                    }
                    Outcome::Ok(Val::Unit)
                }
                Op::ServerVersion => Outcome::Ok(Val::Version(r.server_version())),
                _ => Outcome::Skipped,
            }
        }
    }
}

pub fn client_main(me: usize) {
    ME.with(|m| m.set(me));
    wait_turn(me);
    let ops = with(|w, me| w.plan.clients[me].ops.clone());
    let mut se = Session::default();
    for (i, o) in ops.iter().enumerate() {
        with(|w, me| {
            w.clients[me].cur_op = Some(i);
            w.clients[me].op_t0 = w.now;
            w.clients[me].op_s0 = w.nseq();
            w.tr(60, (me as u64) << 16 | i as u64);
            w.note(|| format!("client {} op {}: {}", me, i, brief(o)));
            w.trigger(|t| match t {
                Trig::OpStart { client, op, delay } if *client == me && *op == i => Some(*delay),
                _ => None,
            });
        });
        let r = catch_unwind(AssertUnwindSafe(|| do_op(&mut se, i, o)));
        let out = match r {
            Ok(o) => o,
            Err(_) => {
                DEPTH.with(|d| d.set(0));
                let m = PANIC.with(|p| p.borrow().clone());
                // a panicked session is given up
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    se.robot = None;
                    se.grip = None;
                }));
                Outcome::Panic(m)
            }
        };
        with(|w, me| {
            let (t1, s1) = (w.now, w.nseq());
            w.tr(62, t1);
            w.note(|| format!("client {} op {} -> {}", me, i, out.short()));
            if matches!(o, Op::LoadModel { .. }) {
                let st = match w.disk.content("/tmp/model.so") {
                    None => -1,
                    Some(d) if *d == w.blob => 1,
                    Some(_) => 0,
                };
                w.hist.model_file_after.push((me, i, st));
            }
            let (t0, s0) = (w.clients[me].op_t0, w.clients[me].op_s0);
            let conn = w.clients[me].conn;
            w.hist.ops.push(OpRec { client: me, op: i, conn, t0, s0, t1, s1, out });
            w.clients[me].cur_op = None;
        });
    }
    let _ = catch_unwind(AssertUnwindSafe(|| drop(se)));
    with(|w, me| {
        w.clients[me].done = true;
        w.client_over(me);
        w.leave(me)
    })
}
pub fn brief(o: &Op) -> String {
    let mut s = format!("{:?}", o);
    if s.len() > 160 {
        let mut k = 160;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
    }
    s
}
