//! Seeded generation of plans. A property picks a workload family; the seed decides the rest.
use crate::plan::*;
use crate::rng::*;
use crate::robot::MASK41;
use crate::wire::*;
use crate::world::{MS, SEC};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23",
];

#[derive(Clone, Copy, PartialEq)]
enum Lv {
    Quiet,
    Mild,
    Heavy,
}
struct G {
    r: Rng,
    lv: Lv,
    at: [f64; 7], // where the joints of the first robot probably are
}

const UDP_ST: &[FK] = &[FK::StDrop, FK::StBurst, FK::StDup, FK::StDelay];
const UDP_CMD: &[FK] = &[FK::CmdDrop, FK::CmdDup, FK::CmdDelay];
const TCP: &[FK] = &[FK::TcpSeg, FK::TcpHold, FK::TcpDelay, FK::ReqDelay];
const INTR: &[FK] = &[FK::Eintr, FK::Spurious, FK::ShortRead, FK::ShortWrite];
const DISK: &[FK] =
    &[FK::DiskShort, FK::DiskEnospc, FK::DiskEio, FK::DiskOpenErr, FK::DiskUnlinkErr, FK::DiskRenameErr, FK::DiskCrash];

impl G {
    fn cfg(&mut self) -> Cfg {
        let r = &mut self.r;
        let mut c = Cfg::default();
        let (a, b) = *r.pick(&[(500, 8_000), (100, 600), (4_000, 60_000), (500, 8_000)]);
        c.cost_min = a;
        c.cost_max = b;
        let (a, b) = *r.pick(&[(20_000, 200_000), (10_000, 30_000), (100_000, 3_000_000), (50_000, 950_000), (20_000, 200_000)]);
        c.lat_min = a;
        c.lat_max = b;
        let (a, b) = *r.pick(&[(30_000, 400_000), (10_000, 20_000), (100_000, 5_000_000), (30_000, 400_000)]);
        c.tcp_lat_min = a;
        c.tcp_lat_max = b;
        c.port_base = match r.below(5) {
            0 => r.range(1024, 65000) as u16,
            1 => 32768 - 3,
            2 => *r.pick(&[1024u16, 49152, 60999, 65000, 255 * 256 + 250]),
            _ => r.range(20000, 60000) as u16,
        };
        c.rcvbuf = match r.below(20) {
            0 => 2000,
            1 => 300,
            _ => *r.pick(&[2, 3, 4, 8, 16, 64, 64, 64]),
        };
        c.delay_max = r.logu(1e6, 3e7) as u64;
        c.stall_max = r.logu(1e6, 1e8) as u64;
        c
    }
    fn robot(&mut self, k: usize) -> ServerCfg {
        let r = &mut self.r;
        let id0 = match r.below(9) {
            0 => 1,
            1 => (1u64 << 32) - r.below(80) - 1,
            2 => (1u64 << 31) - r.below(80) - 1,
            3 => (1u64 << 53) - r.below(80) - 1,
            4 => (1u64 << 60) + r.below(1 << 40),
            5 => (1u64 << 16) - r.below(60) - 1,
            _ => 1 + r.below(10_000_000),
        };
        ServerCfg {
            gripper: false,
            ip: [10, 0, r.below(250) as u8, 10 + k as u8],
            host: format!("robot{}.lan", k),
            dns: 0,
            listening: 0,
            version: 5,
            connect_status: 0,
            id0,
            period: MS,
            tick_jitter: *r.pick(&[0, 0, 20_000, 300_000, 700_000]),
            send_states: true,
            first_state_delay: if r.chance(0.15) { r.below(983 * MS) } else { r.below(3 * MS) },
            lost_limit: *r.pick(&[0, 20, 20, 5, 60]),
            blob_len: 4000,
            udp_port: r.range(1, 65535) as u16,
            errors: r.below(2),
            zero_mass: r.below(5) as u8,
            gravity_mode: 0,
        }
    }
    fn gripper(&mut self, k: usize) -> ServerCfg {
        let mut s = self.robot(k);
        let r = &mut self.r;
        s.gripper = true;
        s.host = format!("hand{}.lan", k);
        s.version = 3;
        s.id0 = match r.below(4) {
            0 => 1,
            1 => (1u64 << 32) - 1 - 20000 - r.below(1000),
            2 => (1u64 << 31) - r.below(20) - 1,
            _ => 1 + r.below(10_000_000),
        };
        s.period = *r.pick(&[2 * MS, 10 * MS, 50 * MS, 100 * MS]);
        s.tick_jitter = s.period / 4;
        s.errors = 0;
        s
    }
    fn plan(&mut self, property: &str, family: &str, seed: u64) -> Plan {
        let cfg = self.cfg();
        let s = self.robot(0);
        Plan {
            property: property.into(),
            family: family.into(),
            seed,
            cfg,
            servers: vec![s],
            clients: vec![],
            timeline: vec![],
            disk_init: 0,
            rates: vec![],
            explicit: None,
        }
    }
    /// swarm style: a random subset of the given kinds, at rates of the level
    fn faults(&mut self, p: &mut Plan, kinds: &[FK]) {
        if self.lv == Lv::Quiet {
            return;
        }
        for k in kinds {
            if !self.r.chance(0.55) {
                continue;
            }
            let (lo, hi): (f64, f64) = match (self.lv, *k) {
                (_, FK::StRunt) => (0.001, 0.02),
                (_, FK::SendErr) => (0.0005, 0.005),
                (_, FK::StMove) => (0.002, 0.05),
                (_, FK::StBurst) => (0.001, 0.01),
                (_, FK::Stall) => (0.0002, 0.004),
                (Lv::Mild, _) => (0.003, 0.03),
                (_, FK::StDrop) => (0.03, 0.4),
                (_, FK::TcpSeg | FK::ShortRead | FK::ShortWrite | FK::Eintr) => (0.05, 0.7),
                (_, FK::DiskCrash) => (0.01, 0.1),
                (_, FK::DiskShort | FK::DiskEnospc | FK::DiskEio) => (0.02, 0.5),
                (_, FK::DiskOpenErr | FK::DiskUnlinkErr | FK::DiskRenameErr) => (0.05, 0.5),
                (_, FK::Spurious) => (0.02, 0.3),
                _ => (0.03, 0.25),
            };
            let x = self.r.logu(lo, hi);
            p.rates.push((*k, x));
        }
        // faults cease at some point in part of the runs
        if self.r.chance(0.3) {
            p.cfg.fault_until = self.r.logu(2e7, 2e9) as u64;
        }
    }
    fn work(&mut self) -> Work {
        let r = &mut self.r;
        match r.below(6) {
            0 => Work { base: r.below(900_000), jitter: r.below(300_000), spike_every: 0, spike: 0 },
            1 => Work { base: 0, jitter: 100_000, spike_every: r.range(3, 25) as u32, spike: r.logu(1e6, 4.5e8) as u64 },
            2 => Work { base: 0, jitter: 0, spike_every: r.range(2, 9) as u32, spike: r.logu(8e5, 1.5e7) as u64 },
            3 => Work { base: 500_000, jitter: 1_200_000, spike_every: 0, spike: 0 },
            _ => Work { base: 10_000, jitter: 50_000, spike_every: 0, spike: 0 },
        }
    }
    fn f64s<const N: usize>(&mut self) -> [f64; N] {
        let mut a = [0.; N];
        let any = self.r.chance(0.5);
        for x in a.iter_mut() {
            *x = if any { self.r.weird_f64() } else { self.r.uni(-50., 50.) };
        }
        if self.r.chance(0.06) {
            let k = self.r.below(N as u64) as usize;
            a[k] = *self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        }
        a
    }
    fn delay(&mut self) -> u64 {
        let r = &mut self.r;
        match r.below(8) {
            0 => 0,
            1 => r.below(50 * MS),
            2 => r.logu(1e7, 2.5e9) as u64,
            _ => r.below(2 * MS),
        }
    }
    fn resp(&mut self, max: u16, pfail: f64) -> Resp {
        let status = if self.r.chance(pfail) { 1 + self.r.below(max as u64) as u16 } else { 0 };
        Resp { status, delay: self.delay() }
    }
    fn setter(&mut self) -> Setter {
        match self.r.below(8) {
            0 => {
                let a: [f64; 52] = self.f64s();
                Setter::Collision(a.to_vec())
            }
            1 => Setter::JointImp(self.f64s()),
            2 => Setter::CartImp(self.f64s()),
            3 => {
                let b = self.r.next();
                Setter::Guiding(std::array::from_fn(|i| b >> i & 1 == 1), b >> 8 & 1 == 1)
            }
            4 => {
                let a: [f64; 16] = self.f64s();
                Setter::K(a.to_vec())
            }
            5 => {
                let a: [f64; 16] = self.f64s();
                Setter::EE(a.to_vec())
            }
            6 => {
                let m: [f64; 1] = self.f64s();
                Setter::Load(m[0], self.f64s(), self.f64s())
            }
            _ => Setter::Filters(self.f64s()),
        }
    }
    fn request(&mut self, pfail: f64) -> Op {
        match self.r.below(12) {
            0 => Op::SetDefault { resps: [self.resp(2, pfail * 0.4), self.resp(2, pfail * 0.4), self.resp(2, pfail * 0.4)] },
            1 => Op::Recovery { resp: self.resp(5, pfail) },
            2 => Op::Stop { resp: self.resp(4, pfail) },
            3 | 4 => {
                let id = match self.r.below(4) {
                    0 => self.r.next() as i32,
                    1 => *self.r.pick(&[i32::MIN, i32::MAX, -1, 0]),
                    _ => self.r.range(0, 30) as i32,
                };
                Op::Wall { id, resp: self.resp(2, pfail), content: self.r.next() }
            }
            5 => Op::ServerVersion,
            _ => Op::Set { what: self.setter(), resp: self.resp(2, pfail) },
        }
    }
    fn gop(&mut self, pfail: f64) -> Op {
        match self.r.below(10) {
            0 => Op::GHoming { resp: self.resp(3, pfail) },
            1 | 2 => {
                let a: [f64; 2] = self.f64s();
                Op::GMove { w: a[0], s: a[1], resp: self.resp(3, pfail) }
            }
            3 | 4 => {
                let a: [f64; 5] = self.f64s();
                let b = self.r.next();
                Op::GGrasp {
                    w: a[0],
                    s: a[1],
                    f: a[2],
                    ei: if b & 1 == 1 { Some(a[3]) } else { None },
                    eo: if b & 2 == 2 { Some(a[4]) } else { None },
                    resp: self.resp(3, pfail),
                }
            }
            5 => Op::GStop { resp: self.resp(3, pfail) },
            6 => Op::GVersion,
            _ => Op::GRead,
        }
    }
    fn read(&mut self) -> Op {
        if self.r.chance(0.35) {
            Op::ReadOnce
        } else {
            let n = match self.r.below(5) {
                0 => 1,
                1 if self.r.chance(0.01) => self.r.range(1000, 4500),
                1 => self.r.range(60, 250),
                _ => self.r.range(2, 60),
            } as u32;
            let mut work = self.work();
            if n >= 1000 {
                work.spike %= 3 * MS;
            }
            Op::Read { n, work }
        }
    }
    fn abort(&mut self, status: u8) -> Abort {
        let r = &mut self.r;
        let mode = match status {
            MS_REFLEX => RM_REFLEX,
            MS_EMERGENCY => RM_USERSTOP,
            _ => *r.pick(&[RM_IDLE, RM_IDLE, RM_OTHER, RM_GUIDING, RM_REFLEX, RM_USERSTOP]),
        };
        let reflex = match r.below(4) {
            0 => 0,
            1 => MASK41,
            2 => 1u64 << r.below(41),
            _ => r.next() & r.next() & MASK41,
        };
        Abort {
            after_ticks: r.range(1, 60) as u32,
            status,
            resp_delay: match r.below(6) {
                0 => -(r.below(4 * MS) as i64),
                1 => r.below(40 * MS) as i64,
                2 => r.logu(1e7, 9e8) as i64,
                _ => r.below(2 * MS) as i64,
            },
            robot_mode: mode,
            reflex: if status == MS_REFLEX || r.chance(0.3) { reflex } else { 0 },
        }
    }
    fn script(&mut self, n: u32) -> Script {
        let mut s = Script::default();
        let mode_ticks = match self.r.below(5) {
            0 => 1,
            1 => self.r.range(10, 60),
            _ => self.r.range(1, 8),
        } as u32;
        s.mode_ticks = mode_ticks;
        s.resp_delay = match self.r.below(6) {
            0 => 0,
            1 => self.r.below(25 * MS), // may come after the mode has switched
            2 => self.r.logu(1e7, 5e8) as u64,
            _ => self.r.below(MS),
        };
        s.finish_ticks = *self.r.pick(&[0, 0, 1, 2, 4, 9, 40]);
        s.finish_resp_delay = match self.r.below(6) {
            0 => -(self.r.below(6 * MS) as i64),
            1 => self.r.below(60 * MS) as i64,
            2 => self.r.logu(1e7, 2e9) as i64,
            _ => self.r.below(2 * MS) as i64,
        };
        let fails = [MS_PREEMPTED, MS_NOTPOSSIBLE, MS_SINGULAR, MS_INVALIDARG, MS_REFLEX, MS_REFLEX, MS_EMERGENCY, MS_INPUT, MS_ABORTED];
        let st = *self.r.pick(&fails);
        match self.r.below(20) {
            0 | 1 => s.reject = Some(*self.r.pick(&fails[1..])),
            2 => {
                let mut a = self.abort(st);
                a.after_ticks = self.r.below(mode_ticks as u64) as u32;
                s.start_abort = Some(a);
            }
            3..=6 => {
                let mut a = self.abort(st);
                if self.r.chance(0.6) {
                    a.after_ticks = self.r.range(1, n.max(1) as i64 + 3) as u32;
                }
                s.abort = Some(a);
            }
            7 | 8 => s.finish_status = st,
            _ => {}
        }
        s.stop = StopScript {
            status: if self.r.chance(0.75) { 0 } else { 1 + self.r.below(4) as u8 },
            delay: self.delay(),
            idle_ticks: *self.r.pick(&[0, 1, 2, 5, 30]),
            move_resp: self.r.below(4) as u8,
            move_resp_delay: self.delay(),
        };
        if self.r.chance(0.25) {
            s.early = (self.r.below(7) as u8, self.r.range(1, 6) as u32);
        }
        if self.r.chance(0.3) {
            s.late = (*self.r.pick(&[1, 2, 3, 3, 4, 5, 5, 6]), self.r.range(1, 12) as u32);
        }
        s
    }
    fn motion(&mut self) -> MotionOp {
        let kind = *self.r.pick(&[MK::JP, MK::JV, MK::CP, MK::CV]);
        let t = self.r.below(10);
        let (pure, torque) = (t < 2, t == 2 || t == 3 || t == 4);
        let n = match self.r.below(8) {
            0 => 1,
            1 => self.r.range(100, 400),
            _ => self.r.range(2, 70),
        } as u32;
        let cutoff = match self.r.below(8) {
            0 | 1 => None,
            2 => Some(1000.),
            3 => Some(*self.r.pick(&[1000.0000001, 5000., 1e9, f64::MAX, f64::INFINITY])),
            4 => Some(self.r.logu(0.01, 999.999)),
            5 => Some(*self.r.pick(&[999.9999, 1e-3, 30., 100., 0.5])),
            _ => Some(self.r.uni(5., 900.)),
        };
        let limit = *self.r.pick(&[None, Some(true), Some(false), Some(false)]);
        let prof = *self.r.pick(&[0u8, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
        let amp = match self.r.below(4) {
            0 => self.r.logu(1e-6, 1e-3),
            1 => self.r.logu(1e-3, 0.1),
            2 => self.r.logu(0.1, 2.),
            _ => self.r.logu(1e-4, 0.5),
        };
        let invalid = if self.r.chance(0.08) {
            Some(Invalid {
                at: self.r.below(n as u64) as u32,
                kind: self.r.below(5) as u8,
                comp: self.r.below(16) as u8,
                in_torque: pure || (torque && self.r.chance(0.4)),
            })
        } else {
            None
        };
        MotionOp {
            kind,
            torque,
            pure_torque: pure,
            ctrl: if self.r.chance(0.4) { None } else { Some(self.r.below(2) as u8) },
            limit,
            cutoff,
            n,
            finish_by_torque: torque && self.r.chance(0.5),
            prof,
            amp,
            pseed: self.r.next(),
            elbow: self.r.below(3) as u8,
            invalid,
            work: self.work(),
            model: false,
            script: self.script(n),
        }
    }
    /// a goal for the robot's joints, in part of the cases near to where they probably are
    fn goal(&mut self) -> [f64; 7] {
        let r = &mut self.r;
        if r.chance(0.35) {
            let at = self.at;
            let one = r.below(7) as usize;
            let z = r.below(5);
            let far = if r.chance(0.5) { 0.08 } else { 2. };
            self.at = std::array::from_fn(|i| {
                let moves = match z {
                    0 | 1 => i == one,
                    2 => i != one,
                    3 => r.chance(0.5),
                    _ => false,
                };
                let sign = if at[i] > 0. { -1. } else { 1. };
                at[i] + sign * if moves {
                    if r.chance(0.5) { r.uni(0., far) } else { r.logu(1e-6, far) }
                } else if r.chance(0.3) {
                    r.logu(1e-8, 1e-4)
                } else {
                    0.
                }
            });
            return self.at;
        }
        let z = r.below(5);
        self.at = std::array::from_fn(|_| match z {
            0 => r.uni(-0.05, 0.05),
            1 => {
                if r.chance(0.5) {
                    0.
                } else {
                    r.uni(-2.5, 2.5)
                }
            }
            2 => r.uni(-1e-3, 1e-3),
            _ => r.uni(-2.8, 2.8),
        });
        self.at
    }
    fn joint_motion(&mut self, short: bool) -> Op {
        let speed = if short { self.r.uni(0.5, 1.0) } else { *self.r.pick(&[1.0, 0.5, 0.3, 0.8, 0.15, 0.97, 0.2]) };
        let mut script = self.script(200);
        script.start_abort = None;
        if self.r.chance(0.6) {
            script.abort = None;
            script.reject = None;
            script.finish_status = 0;
        }
        let at = self.at;
        let goal = self.goal();
        let near = (0..7).all(|i| (goal[i] - at[i]).abs() < 0.1);
        let speed = if near && self.r.chance(0.5) { self.r.logu(0.03, 1.) } else { speed };
        Op::JointMotion { speed, goal, script }
    }
    fn connect(&mut self, srv: usize) -> Op {
        Op::Connect {
            srv,
            by_name: self.r.chance(0.3),
            enforce: *self.r.pick(&[Some(false), Some(false), Some(true), None]),
            log_size: match self.r.below(11) {
                0..=2 => None,
                3 => Some(0),
                4 => Some(1),
                5 => Some(2),
                6 => Some(3),
                7 => Some(5),
                8 => Some(50),
                9 => Some(self.r.range(4, 130) as usize),
                _ => Some(*self.r.pick(&[16, 64, 100, 128, 256, 1000, 5000])),
            },
        }
    }
    fn client(&mut self, p: &mut Plan, ops: Vec<Op>) {
        let start = self.r.below(2 * MS);
        p.clients.push(ClientPlan { start, after: None, rt: RtCfg::default(), ops });
    }
    fn silence(&mut self) -> u64 {
        match self.r.below(3) {
            0 => self.r.uni(9e8, 9.88e8) as u64,
            _ => self.r.logu(2e6, 9e8) as u64,
        }
    }
    fn nap(&mut self) -> Op {
        let ns = match self.r.below(20) {
            0 => self.r.below(3 * SEC),
            1..=5 => self.r.below(300 * MS),
            _ => self.r.below(30 * MS),
        };
        Op::Sleep { ns }
    }
    fn recover(&mut self) -> Op {
        Op::Recovery { resp: Resp { status: 0, delay: self.r.below(3 * MS) } }
    }

    // ---------------------------------------------------------------- families
    fn f_read(&mut self, p: &mut Plan) {
        let mut ops = vec![self.connect(0)];
        let n = self.r.range(1, 7);
        for _ in 0..n {
            match self.r.below(8) {
                0 => {
                    let o = self.nap();
                    ops.push(o)
                }
                1 => {
                    let o = self.request(0.2);
                    ops.push(o)
                }
                2 => {
                    let mut m = self.motion();
                    m.n = m.n.min(30);
                    m.invalid = None;
                    ops.push(Op::Motion(m))
                }
                _ => {
                    let o = self.read();
                    ops.push(o)
                }
            }
        }
        self.client(p, ops);
        self.faults(p, UDP_ST);
        if self.r.chance(0.3) {
            self.faults(p, INTR);
        }
        if self.r.chance(0.3) {
            self.faults(p, &[FK::Stall]);
        }
        if self.r.chance(0.15) {
            self.faults(p, &[FK::StRunt]);
        }
        if self.r.chance(0.3) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.25) {
            let dur = self.silence();
            let c = self.r.range(1, 30) as u32;
            p.timeline.push(Timed { trig: Trig::Cb { client: 0, n: c }, act: Act::Silence { srv: 0, dur } });
        }
    }
    fn f_motion(&mut self, p: &mut Plan, pick: &str) {
        let mut ops = vec![self.connect(0)];
        let n = self.r.range(1, 5);
        for _ in 0..n {
            match self.r.below(10) {
                0 => {
                    let o = self.read();
                    ops.push(o);
                }
                1 => {
                    let o = self.request(0.2);
                    ops.push(o);
                }
                2 => {
                    let o = self.nap();
                    ops.push(o);
                }
                _ => {
                    let mut m = self.motion();
                    self.aim(&mut m, pick);
                    let bad = m.script.abort.is_some() || m.script.start_abort.is_some() || m.script.finish_status != 0 || m.invalid.is_some();
                    ops.push(Op::Motion(m));
                    if bad && self.r.chance(0.7) || self.r.chance(0.2) {
                        if self.r.chance(0.5) {
                            let o = self.nap();
                            ops.push(o);
                        }
                        let o = self.recover();
                        ops.push(o);
                    }
                }
            }
        }
        if self.r.chance(0.1) {
            let o = self.joint_motion(true);
            ops.insert(1, o);
        }
        self.client(p, ops);
        self.faults(p, UDP_ST);
        self.faults(p, UDP_CMD);
        if self.r.chance(0.35) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.25) {
            self.faults(p, INTR);
        }
        if self.r.chance(0.25) {
            self.faults(p, &[FK::Stall]);
        }
        if self.r.chance(0.08) {
            self.faults(p, &[FK::SendErr, FK::StRunt]);
        }
        if self.r.chance(if pick == "C04" { 0.1 } else { 0.03 }) {
            self.faults(p, &[FK::StMove]);
        }
        if self.r.chance(0.12) {
            let dur = self.silence();
            let c = self.r.range(1, 60) as u32;
            p.timeline.push(Timed { trig: Trig::Cb { client: 0, n: c }, act: Act::Silence { srv: 0, dur } });
        }
        if matches!(pick, "C06" | "C07" | "C08") && self.r.chance(0.6) {
            p.servers[0].lost_limit = 0;
        }
    }
    /// bend a motion towards the subject of a property
    fn aim(&mut self, m: &mut MotionOp, pick: &str) {
        if self.r.chance(0.002) {
            m.n = self.r.range(1000, 4500) as u32;
            m.work.spike %= 3 * MS;
        }
        let calm = |m: &mut MotionOp| {
            m.script.reject = None;
            m.script.start_abort = None;
            m.script.abort = None;
            m.script.finish_status = 0;
        };
        match pick {
            "C06" => {
                m.limit = *self.r.pick(&[None, Some(true)]);
                if self.r.chance(0.85) {
                    m.invalid = None;
                }
                if self.r.chance(0.7) {
                    calm(m);
                }
                if self.r.chance(0.4) {
                    m.cutoff = Some(1000.);
                }
                if self.r.chance(0.6) {
                    m.n = self.r.range(20, 300) as u32;
                }
                // velocity limits need time to be reached
                if self.r.chance(0.3) {
                    m.n = self.r.range(200, 900) as u32;
                    m.prof = *self.r.pick(&[2, 5, 6, 8, 8, 9]);
                    m.amp = self.r.logu(0.5, 50.);
                }
            }
            "C07" => {
                if self.r.chance(0.9) {
                    m.invalid = None;
                }
                if self.r.chance(0.6) {
                    calm(m);
                }
            }
            "C08" => {
                if self.r.chance(0.85) {
                    m.invalid = Some(Invalid {
                        at: if self.r.chance(0.25) { m.n - 1 } else { self.r.below(m.n as u64) as u32 },
                        kind: self.r.below(5) as u8,
                        comp: self.r.below(16) as u8,
                        in_torque: m.pure_torque || (m.torque && self.r.chance(0.4)),
                    });
                }
                if self.r.chance(0.7) {
                    calm(m);
                }
            }
            "C09" => {
                if self.r.chance(0.8) {
                    m.invalid = None;
                    let f = m.script.finish_status;
                    calm(m);
                    m.script.finish_status = f;
                }
            }
            "C10" => {
                if self.r.chance(0.8) {
                    m.invalid = None;
                    if m.script.abort.is_none() && m.script.reject.is_none() && m.script.start_abort.is_none() && self.r.chance(0.6) {
                        let st = *self.r.pick(&[2u8, 3, 4, 5, 6, 6, 7, 8, 9]);
                        let mut a = self.abort(st);
                        a.after_ticks = self.r.range(1, m.n as i64 + 2) as u32;
                        m.script.abort = Some(a);
                    }
                }
            }
            "C11" => {
                if self.r.chance(0.8) {
                    calm(m);
                    if self.r.chance(0.8) {
                        let st = *self.r.pick(&[2u8, 3, 4, 5, 6, 6, 7, 8, 9]);
                        let mut a = self.abort(st);
                        a.after_ticks = self.r.range(1, m.n as i64 + 2) as u32;
                        m.script.abort = Some(a);
                    } else {
                        m.script.finish_status = *self.r.pick(&[2u8, 3, 6, 6, 7, 9]);
                    }
                    m.invalid = None;
                }
            }
            "C04" | "C05" => {
                if self.r.chance(0.7) {
                    m.invalid = None;
                }
                if self.r.chance(0.4) {
                    calm(m);
                }
            }
            _ => {}
        }
    }
    fn f_request(&mut self, p: &mut Plan) {
        let hand = self.r.chance(0.25);
        if hand {
            p.servers[0] = self.gripper(0);
        }
        let mut ops = vec![self.connect(0)];
        let long = self.r.chance(0.05);
        let n = if long { self.r.range(257, 330) } else { self.r.range(2, 14) };
        for _ in 0..n {
            let o = if hand {
                self.gop(0.3)
            } else if long {
                match self.request(0.1) {
                    Op::SetDefault { .. } => Op::ServerVersion,
                    o => o,
                }
            } else {
                match self.r.below(12) {
                    0 => self.read(),
                    1 | 2 => {
                        let mut m = self.motion();
                        m.n = m.n.min(20);
                        m.invalid = None;
                        Op::Motion(m)
                    }
                    3 => self.recover(),
                    _ => self.request(0.3),
                }
            };
            ops.push(o);
        }
        if long {
            for o in ops.iter_mut() {
                match o {
                    Op::Set { resp, .. } | Op::Recovery { resp } | Op::Stop { resp } | Op::Wall { resp, .. } => resp.delay %= 100_000,
                    Op::GHoming { resp } | Op::GMove { resp, .. } | Op::GGrasp { resp, .. } | Op::GStop { resp } => resp.delay %= 100_000,
                    _ => {}
                }
            }
        }
        self.client(p, ops);
        self.faults(p, TCP);
        if self.r.chance(0.6) {
            self.faults(p, INTR);
        }
        if self.r.chance(0.3) {
            self.faults(p, UDP_ST);
        }
        if self.r.chance(0.15) {
            self.loss_event(p, 0);
        }
    }
    fn loss_event(&mut self, p: &mut Plan, srv: usize) {
        let nops = p.clients[0].ops.len().max(2) as i64;
        let act = match self.r.below(10) {
            0 | 1 => Act::Fin { srv },
            2 | 3 => Act::Rst { srv },
            4 => Act::Blackhole { srv, dur: if self.r.chance(0.15) { 0 } else { self.r.logu(5e6, 3e9) as u64 } },
            5 => Act::Restart { srv, dur: self.r.logu(1e7, 4e9) as u64 },
            6 | 7 => Act::CutResp { srv, bytes: self.r.below(40) as u32, rst: self.r.chance(0.5) },
            _ => Act::Silence { srv, dur: if self.r.chance(0.4) { 0 } else { self.silence() } },
        };
        let trig = match self.r.below(5) {
            0 => Trig::At(self.r.logu(1e6, 5e8) as u64),
            1 => Trig::Req { client: 0, n: self.r.range(1, nops) as u32 },
            2 => Trig::Cb { client: 0, n: self.r.range(1, 60) as u32 },
            _ => Trig::OpStart { client: 0, op: self.r.range(0, nops - 1) as usize, delay: if self.r.chance(0.4) { 0 } else { self.r.logu(1e3, 3e7) as u64 } },
        };
        if matches!(act, Act::Blackhole { dur: 0, .. }) {
            p.cfg.deadline = p.cfg.deadline.max(2400 * SEC);
        }
        p.timeline.push(Timed { trig, act });
    }
    fn f_loss(&mut self, p: &mut Plan) {
        let hand = self.r.chance(0.2);
        if hand {
            p.servers[0] = self.gripper(0);
        }
        let mut ops = vec![self.connect(0)];
        let n = self.r.range(1, 6);
        for _ in 0..n {
            let o = if hand {
                self.gop(0.1)
            } else {
                match self.r.below(8) {
                    0 | 1 => self.read(),
                    2 | 3 => self.request(0.1),
                    4 => self.nap(),
                    5 => Op::LoadModel { persistent: self.r.chance(0.5), resp: self.resp(1, 0.1) },
                    _ => {
                        let mut m = self.motion();
                        m.invalid = None;
                        if self.r.chance(0.6) {
                            m.script.abort = None;
                            m.script.reject = None;
                            m.script.start_abort = None;
                        }
                        Op::Motion(m)
                    }
                }
            };
            ops.push(o);
        }
        if self.r.chance(0.5) {
            let ns = self.r.logu(1e7, 5e9) as u64;
            ops.push(Op::Sleep { ns });
            let o = self.connect(0);
            ops.push(o);
            let o = if hand { self.gop(0.) } else { self.read() };
            ops.push(o);
            let o = if hand { self.gop(0.) } else { self.request(0.) };
            ops.push(o);
        }
        self.client(p, ops);
        self.loss_event(p, 0);
        if self.r.chance(0.25) {
            self.loss_event(p, 0);
        }
        if self.r.chance(0.4) {
            self.faults(p, UDP_ST);
        }
        if self.r.chance(0.3) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.3) {
            self.faults(p, INTR);
        }
        if self.r.chance(0.2) {
            self.faults(p, UDP_CMD);
        }
    }
    fn f_connect(&mut self, p: &mut Plan) {
        let hand = self.r.chance(0.35);
        if hand {
            p.servers[0] = self.gripper(0);
        }
        let own: u16 = if hand { 3 } else { 5 };
        {
            let z = self.r.below(12);
            let r = &mut self.r;
            let s = &mut p.servers[0];
            match z {
                0 => s.dns = *r.pick(&[1u8, 2, 3]),
                1 => s.listening = 1,
                2 => s.listening = 2,
                3 => s.listening = 3,
                4 | 5 => {
                    s.connect_status = if hand { *r.pick(&[1, 1, 2, 3]) } else { 1 };
                    s.version = *r.pick(&[own, own - 1, own + 1, 0, 255, 256, 65535]);
                }
                6 => s.send_states = false,
                7 => s.first_state_delay = r.below(2 * SEC),
                8 => s.version = *r.pick(&[own, own + 1, 9, 300, 65535]), // accepted whatever it reports
                _ => {}
            }
            if z == 3 || s.listening == 3 {
                p.cfg.deadline = 900 * SEC;
            }
        }
        let mut ops = vec![];
        let n = self.r.range(1, 4);
        for _ in 0..n {
            let o = self.connect(0);
            ops.push(o);
            if self.r.chance(0.5) {
                let o = if hand {
                    self.gop(0.)
                } else if self.r.chance(0.5) {
                    self.read()
                } else {
                    self.request(0.1)
                };
                ops.push(o);
            }
            ops.push(if hand { Op::GVersion } else { Op::ServerVersion });
            if self.r.chance(0.3) {
                ops.push(Op::Disconnect);
            }
            if self.r.chance(0.5) {
                let ns = self.r.logu(1e6, 3e9) as u64;
                ops.push(Op::Sleep { ns });
            }
        }
        self.client(p, ops);
        match self.r.below(4) {
            0 => {
                let nth = self.r.range(1, 3) as u32;
                let act = match self.r.below(5) {
                    0 => Act::Fin { srv: 0 },
                    1 => Act::Rst { srv: 0 },
                    2 => Act::CutResp { srv: 0, bytes: self.r.below(16) as u32, rst: self.r.chance(0.5) },
                    3 => Act::Restart { srv: 0, dur: self.r.logu(1e7, 3e9) as u64 },
                    _ => Act::Blackhole { srv: 0, dur: self.r.logu(1e7, 3e9) as u64 },
                };
                let trig = if self.r.chance(0.5) {
                    Trig::Req { client: 0, n: nth }
                } else {
                    Trig::OpStart { client: 0, op: 0, delay: self.r.below(2 * MS) }
                };
                p.timeline.push(Timed { trig, act });
            }
            1 => {
                let mode = if p.servers[0].listening == 0 { 1 + self.r.below(2) as u8 } else { 0 };
                let t = self.r.logu(1e6, 3e9) as u64;
                p.timeline.push(Timed { trig: Trig::At(t), act: Act::Listen { srv: 0, mode } });
                if self.r.chance(0.5) {
                    p.timeline.push(Timed { trig: Trig::At(t + self.r.logu(1e6, 2e9) as u64), act: Act::Listen { srv: 0, mode: 0 } });
                }
            }
            _ => {}
        }
        if self.r.chance(0.6) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.5) {
            self.faults(p, INTR);
        }
        if self.r.chance(0.3) {
            self.faults(p, UDP_ST);
        }
        if self.r.chance(0.05) {
            self.faults(p, &[FK::StRunt]);
        }
    }
    fn f_gripper(&mut self, p: &mut Plan) {
        p.servers[0] = self.gripper(0);
        let mut ops = vec![self.connect(0)];
        let n = self.r.range(2, 12);
        for _ in 0..n {
            let o = match self.r.below(6) {
                0 => self.nap(),
                1 => Op::Sleep { ns: self.r.below(SEC) },
                _ => self.gop(0.4),
            };
            ops.push(o);
        }
        self.client(p, ops);
        self.faults(p, UDP_ST);
        if self.r.chance(0.6) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.4) {
            self.faults(p, INTR);
        }
        if self.r.chance(0.3) {
            self.faults(p, &[FK::Stall]);
        }
        if self.r.chance(0.15) {
            self.faults(p, &[FK::StRunt]);
        }
        if self.r.chance(0.2) {
            self.loss_event(p, 0);
        }
    }
    fn f_model(&mut self, p: &mut Plan, pick: &str) {
        let blobs: &[usize] = if self.r.chance(0.05) { &[70_000, 140_000, 300_000, 1_200_000] } else { &[100, 1000, 4000, 20_000, 70_000] };
        p.servers[0].blob_len = *self.r.pick(blobs) + self.r.below(100) as usize;
        p.disk_init = (self.r.chance(0.25)) as u8;
        let ncl = if pick == "C18" && self.r.chance(0.3) { self.r.range(2, 3) as usize } else { 1 };
        // separate processes on one machine: each with a robot of its own (same arm software)
        let crashy = pick == "C18" && self.r.chance(0.35);
        for c in 0..ncl {
            if c > 0 {
                let mut s = self.robot(c);
                s.blob_len = p.servers[0].blob_len;
                p.servers.push(s);
            }
            let mut ops = vec![self.connect(c)];
            let n = self.r.range(1, 4);
            for _ in 0..n {
                let pers = self.r.chance(0.5);
                ops.push(Op::LoadModel { persistent: pers, resp: self.resp(1, 0.15) });
                match self.r.below(if pick == "C19" { 3 } else { 7 }) {
                    0 | 1 => ops.push(Op::EvalModel { n: self.r.range(1, 6) as u32, gseed: self.r.next() }),
                    2 => {
                        let mut m = self.motion();
                        m.n = m.n.min(12);
                        m.invalid = None;
                        m.model = true;
                        ops.push(Op::Motion(m));
                        ops.push(Op::EvalModel { n: 1, gseed: self.r.next() });
                    }
                    3 => {
                        let o = self.request(0.1);
                        ops.push(o)
                    }
                    4 => {
                        let o = self.nap();
                        ops.push(o)
                    }
                    _ => {}
                }
            }
            self.client(p, ops);
        }
        if crashy {
            // a process that takes over after the first one is gone
            let k = p.clients.len();
            if k < 6 {
                let mut s = self.robot(k);
                s.blob_len = p.servers[0].blob_len;
                p.servers.push(s);
                let mut ops = vec![self.connect(k)];
                let pers = self.r.chance(0.5);
                ops.push(Op::LoadModel { persistent: pers, resp: Resp { status: 0, delay: 0 } });
                ops.push(Op::EvalModel { n: 1, gseed: 1 });
                self.client(p, ops);
                p.clients[k].after = Some(0);
            }
        }
        if pick == "C18" {
            self.faults(p, &DISK[..6]);
            if crashy {
                p.rates.push((FK::DiskCrash, self.r.logu(0.02, 0.3)));
            }
        }
        if self.r.chance(0.4) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.3) {
            self.faults(p, INTR);
        }
        if self.r.chance(0.2) {
            self.faults(p, UDP_ST);
        }
        if pick == "C18" && self.r.chance(0.3) {
            let srv = self.r.below(ncl as u64) as usize;
            let act = match self.r.below(3) {
                0 => Act::Fin { srv },
                1 => Act::Rst { srv },
                _ => Act::CutResp { srv, bytes: self.r.below(p.servers[0].blob_len as u64) as u32, rst: self.r.chance(0.5) },
            };
            let n = self.r.range(2, 4) as u32;
            p.timeline.push(Timed { trig: Trig::Req { client: srv, n }, act });
        }
    }
    fn f_rt(&mut self, p: &mut Plan) {
        let mut ops = vec![self.connect(0)];
        if let Op::Connect { enforce, .. } = &mut ops[0] {
            *enforce = *self.r.pick(&[None, Some(true), Some(true), Some(false)]);
        }
        let n = self.r.range(1, 5);
        for _ in 0..n {
            if self.r.chance(0.8) {
                let b = self.r.next();
                ops.push(Op::Rt(RtCfg { kernel: b & 7 < 5, priomax_fail: b >> 4 & 7 == 0, sched_fail: b >> 8 & 3 == 0, mlock_fail: b >> 12 & 3 == 0 }));
            }
            if self.r.chance(0.8) {
                let mut m = self.motion();
                m.n = m.n.min(12);
                if self.r.chance(0.8) {
                    m.invalid = None;
                }
                ops.push(Op::Motion(m));
            } else if self.r.chance(0.3) && !ops.iter().any(|o| matches!(o, Op::Motion(_))) {
                let o = self.joint_motion(true);
                ops.push(o);
            } else {
                let o = self.read();
                ops.push(o);
            }
            if self.r.chance(0.4) {
                let o = self.recover();
                ops.push(o);
            }
        }
        self.client(p, ops);
        let b = self.r.next();
        p.clients[0].rt = RtCfg { kernel: b & 3 != 0, priomax_fail: false, sched_fail: b >> 4 & 3 == 0, mlock_fail: b >> 8 & 3 == 0 };
        if self.r.chance(0.4) {
            self.faults(p, UDP_ST);
        }
        if self.r.chance(0.3) {
            self.faults(p, INTR);
        }
    }
    fn f_foreign(&mut self, p: &mut Plan) {
        let mut ops = vec![self.connect(0)];
        let n = self.r.range(1, 3);
        for _ in 0..n {
            let ext = self.r.chance(0.3);
            let mg = if ext { self.r.below(5) as u8 } else { 1 + self.r.below(4) as u8 };
            let cm = if ext { CM_EXTERNAL } else { *self.r.pick(&[0u8, 1, 3]) };
            let mode = *self.r.pick(&[RM_MOVE, RM_GUIDING, RM_OTHER]);
            ops.push(Op::Foreign { srv: 0, mg, cm, mode });
            // the library goes by the states it has received
            let o = match self.r.below(3) {
                0 => Op::ReadOnce,
                1 => Op::Read { n: self.r.range(1, 9) as u32, work: Work::default() },
                _ => self.nap(),
            };
            ops.push(o);
            let mut m = self.motion();
            m.n = m.n.min(20);
            ops.push(Op::Motion(m));
            if self.r.chance(0.4) {
                let o = if self.r.chance(0.5) { self.request(0.1) } else { self.read() };
                ops.push(o);
            }
            ops.push(Op::Foreign { srv: 0, mg: 0, cm: 0, mode: 1 });
            if self.r.chance(0.8) {
                ops.push(Op::Sleep { ns: 5 * MS });
                if self.r.chance(0.8) {
                    ops.push(Op::ReadOnce);
                }
            }
            let o = self.recover();
            ops.push(o);
            let mut m = self.motion();
            m.n = m.n.min(20);
            ops.push(Op::Motion(m));
        }
        self.client(p, ops);
        self.faults(p, UDP_ST);
        if self.r.chance(0.3) {
            self.faults(p, UDP_CMD);
        }
        if self.r.chance(0.3) {
            self.faults(p, TCP);
        }
    }
    /// long mixed sessions with many failures
    fn f_poison(&mut self, p: &mut Plan) {
        let mut ops = vec![self.connect(0)];
        let n = self.r.range(3, 9);
        for _ in 0..n {
            match self.r.below(6) {
                0 => {
                    let o = self.request(0.5);
                    ops.push(o);
                }
                1 => {
                    let o = self.read();
                    ops.push(o);
                }
                _ => {
                    let mut m = self.motion();
                    m.n = m.n.min(40);
                    if m.script.abort.is_none() && self.r.chance(0.4) {
                        let st = *self.r.pick(&[2u8, 3, 4, 5, 6, 6, 7, 8, 9]);
                        let mut a = self.abort(st);
                        a.after_ticks = self.r.range(1, m.n as i64 + 2) as u32;
                        m.script.abort = Some(a);
                    }
                    m.script.stop.move_resp = *self.r.pick(&[0, 1, 2, 3, 3]);
                    if self.r.chance(0.5) {
                        m.invalid = None;
                    }
                    ops.push(Op::Motion(m));
                    if self.r.chance(0.85) {
                        let o = self.recover();
                        ops.push(o);
                    }
                }
            }
        }
        self.client(p, ops);
        self.faults(p, UDP_ST);
        if self.r.chance(0.5) {
            self.faults(p, UDP_CMD);
        }
        if p.property == "C12" {
            // answers of old motions in pieces around the next requests
            p.rates.push((FK::TcpSeg, self.r.uni(0.3, 1.)));
        }
        if self.r.chance(0.4) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.2) {
            self.faults(p, &[FK::SendErr, FK::Stall]);
        }
    }
    fn f_two(&mut self, p: &mut Plan) {
        let hand = self.r.chance(0.4);
        let s = if hand { self.gripper(1) } else { self.robot(1) };
        p.servers.push(s);
        for c in 0..2 {
            let mut ops = vec![self.connect(c)];
            let n = self.r.range(2, 5);
            for _ in 0..n {
                let o = if c == 1 && hand {
                    self.gop(0.3)
                } else {
                    match self.r.below(5) {
                        0 => self.read(),
                        1 => self.request(0.3),
                        _ => {
                            let mut m = self.motion();
                            m.n = m.n.min(50);
                            Op::Motion(m)
                        }
                    }
                };
                ops.push(o);
            }
            self.client(p, ops);
        }
        // same ids and ports on both sides invite confusion
        if self.r.chance(0.5) {
            p.servers[1].id0 = p.servers[0].id0;
        }
        if self.r.chance(0.5) {
            p.servers[1].udp_port = p.servers[0].udp_port;
        }
        self.faults(p, UDP_ST);
        if self.r.chance(0.4) {
            self.faults(p, UDP_CMD);
        }
        if self.r.chance(0.4) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.3) {
            self.loss_event(p, 1);
        }
    }
    fn f_intr(&mut self, p: &mut Plan) {
        let z = self.r.below(5);
        if z == 0 {
            p.servers[0] = self.gripper(0);
        }
        let mut ops = vec![self.connect(0)];
        let n = self.r.range(2, 7);
        for _ in 0..n {
            let o = if z == 0 {
                self.gop(0.2)
            } else {
                match self.r.below(7) {
                    0 | 1 => self.read(),
                    2 | 3 => self.request(0.2),
                    4 => Op::LoadModel { persistent: self.r.chance(0.5), resp: self.resp(1, 0.1) },
                    _ => {
                        let mut m = self.motion();
                        m.n = m.n.min(60);
                        m.invalid = None;
                        Op::Motion(m)
                    }
                }
            };
            ops.push(o);
        }
        self.client(p, ops);
        if self.lv == Lv::Quiet {
            self.lv = Lv::Mild;
        }
        self.faults(p, INTR);
        p.cfg.fault_until = u64::MAX;
        if p.rates.is_empty() {
            p.rates.push((FK::Eintr, 0.2));
        }
    }
    fn f_jm(&mut self, p: &mut Plan) {
        let mut ops = vec![self.connect(0)];
        let n = self.r.range(1, 3);
        for _ in 0..n {
            let o = self.joint_motion(self.r.clone().chance(0.5));
            self.r.next();
            ops.push(o);
            if self.r.chance(0.5) {
                let o = self.recover();
                ops.push(o);
            }
            if self.r.chance(0.2) {
                let o = self.read();
                ops.push(o);
            }
        }
        p.cfg.deadline = 45 * SEC;
        p.servers[0].lost_limit = *self.r.pick(&[0, 0, 20, 60]);
        self.client(p, ops);
        if self.r.chance(0.6) {
            self.faults(p, UDP_ST);
        }
        if self.r.chance(0.6) {
            self.faults(p, UDP_CMD);
        }
        if self.r.chance(0.2) {
            self.faults(p, TCP);
        }
        if self.r.chance(0.2) {
            self.faults(p, INTR);
        }
        if self.r.chance(0.2) {
            self.faults(p, &[FK::Stall]);
        }
    }
    /// long sessions: counters, buffers and identifiers that only show their limits after a while
    fn f_long(&mut self, p: &mut Plan, pick: &str, vast: bool) {
        let n = if vast { self.r.range(65_550, 69_000) } else { self.r.range(1000, 5000) } as u32;
        p.cfg.deadline = 900 * SEC;
        let (a, b) = *self.r.pick(&[(500, 8_000), (100, 600)]);
        p.cfg.cost_min = a;
        p.cfg.cost_max = b;
        p.cfg.lat_min = 20_000;
        p.cfg.lat_max = *self.r.pick(&[30_000, 200_000, 900_000]);
        p.cfg.tcp_lat_min = 10_000;
        p.cfg.tcp_lat_max = 60_000;
        if vast {
            p.cfg.rcvbuf = p.cfg.rcvbuf.min(64);
        }
        let lv = self.lv;
        if self.lv == Lv::Heavy {
            self.lv = Lv::Mild;
        }
        p.servers[0].lost_limit = 0;
        let pick = if matches!(pick, "C12" | "C13") && self.r.chance(0.3) { "C16" } else { pick };
        if matches!(pick, "C16" | "C17") {
            p.servers[0] = self.gripper(0);
            p.servers[0].period = *self.r.pick(&[2 * MS, 10 * MS]);
        }
        let mut ops = vec![self.connect(0)];
        match pick {
            "C01" | "C02" | "C03" => {
                ops.push(Op::Read { n, work: Work::default() });
                for _ in 0..3 {
                    ops.push(Op::ReadOnce);
                }
            }
            "C12" | "C13" => {
                for _ in 0..n {
                    let o = match self.r.below(if vast { 6 } else { 12 }) {
                        0 => Op::Set { what: Setter::CartImp(self.f64s()), resp: self.resp(2, 0.1) },
                        1 => Op::Wall { id: self.r.range(0, 30) as i32, resp: self.resp(2, 0.1), content: self.r.next() },
                        2..=5 => Op::Stop { resp: self.resp(4, 0.1) },
                        6 => Op::ReadOnce,
                        _ => match self.request(0.2) {
                            Op::SetDefault { .. } => Op::ServerVersion,
                            o => o,
                        },
                    };
                    ops.push(o);
                }
            }
            "C16" | "C17" => {
                let n = if vast && pick == "C17" { n / 10 } else { n };
                for _ in 0..n {
                    let o = match self.r.below(if vast && pick == "C16" { 6 } else { 10 }) {
                        0..=5 => Op::GStop { resp: self.resp(3, 0.1) },
                        6 => self.gop(0.1),
                        _ => Op::GRead,
                    };
                    ops.push(o);
                }
            }
            "C21" => {
                let n = n / 25;
                for _ in 0..n {
                    match self.r.below(8) {
                        0 => ops.push(Op::ReadOnce),
                        1 => {
                            let o = self.request(0.1);
                            ops.push(o);
                        }
                        _ => {
                            let mut m = self.motion();
                            m.n = m.n.min(6);
                            m.invalid = None;
                            m.work = Work::default();
                            m.script.resp_delay %= 2 * MS;
                            m.script.finish_resp_delay %= 2 * MS as i64;
                            m.script.stop.delay %= 2 * MS;
                            m.script.stop.move_resp_delay %= 2 * MS;
                            if m.script.mode_ticks > 8 {
                                m.script.mode_ticks = 3;
                            }
                            ops.push(Op::Motion(m));
                            if self.r.chance(0.5) {
                                ops.push(Op::Recovery { resp: Resp { status: 0, delay: 1000 } });
                            }
                        }
                    }
                }
            }
            _ => {
                let mut m = self.motion();
                self.aim(&mut m, pick);
                m.n = n;
                m.invalid = None;
                m.work = Work::default();
                m.script.reject = None;
                m.script.start_abort = None;
                m.script.abort = None;
                m.script.finish_status = 0;
                if matches!(pick, "C10" | "C11") || self.r.chance(0.2) {
                    let mut a = self.abort(*self.r.clone().pick(&[MS_REFLEX, MS_ABORTED, MS_PREEMPTED, MS_INPUT]));
                    a.after_ticks = n - self.r.below(n as u64 / 20) as u32;
                    m.script.abort = Some(a);
                }
                ops.push(Op::Motion(m));
                ops.push(Op::Recovery { resp: Resp { status: 0, delay: 1000 } });
                let mut m = self.motion();
                m.n = m.n.min(30);
                ops.push(Op::Motion(m));
            }
        }
        for o in ops.iter_mut() {
            match o {
                Op::Set { resp, .. } | Op::Recovery { resp } | Op::Stop { resp } | Op::Wall { resp, .. } => resp.delay %= 100_000,
                Op::GHoming { resp } | Op::GMove { resp, .. } | Op::GGrasp { resp, .. } | Op::GStop { resp } => resp.delay %= 100_000,
                _ => {}
            }
        }
        self.client(p, ops);
        let k: &[&[FK]] = match pick {
            "C12" | "C13" | "C16" => &[TCP, INTR],
            "C21" => &[UDP_ST, UDP_CMD, TCP],
            "C01" | "C02" | "C03" | "C17" => &[UDP_ST, INTR],
            _ => &[UDP_ST, UDP_CMD],
        };
        for k in k {
            if self.r.chance(0.5) {
                self.faults(p, k);
            }
        }
        self.lv = lv;
    }
}

pub fn generate(property: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 77);
    let lv = match r.below(10) {
        0 | 1 => Lv::Quiet,
        2..=5 => Lv::Mild,
        _ => Lv::Heavy,
    };
    let fams: &[(&str, f64)] = match property {
        "C01" | "C02" | "C03" => &[("read", 0.75), ("motion", 0.2), ("two", 0.05)],
        "C04" | "C05" | "C06" | "C07" | "C08" | "C11" => &[("motion", 0.94), ("poison", 0.06)],
        "C09" | "C10" => &[("motion", 0.8), ("poison", 0.12), ("loss", 0.08)],
        "C12" => &[("request", 0.6), ("motion", 0.1), ("poison", 0.25), ("two", 0.05)],
        "C13" => &[("request", 0.9), ("intr", 0.1)],
        "C14" => &[("loss", 1.)],
        "C15" => &[("connect", 0.9), ("loss", 0.1)],
        "C16" | "C17" => &[("gripper", 0.95), ("two", 0.05)],
        "C18" | "C19" => &[("model", 1.)],
        "C20" => &[("rt", 1.)],
        "C21" => &[("poison", 0.5), ("foreign", 0.3), ("two", 0.2)],
        "C22" => &[("intr", 0.85), ("connect", 0.15)],
        "C23" => &[("jm", 1.)],
        _ => &[("motion", 1.)],
    };
    let w: Vec<f64> = fams.iter().map(|f| f.1).collect();
    let fam = fams[r.weighted(&w)].0;
    let fam = match (property, r.below(20_000)) {
        ("C06" | "C08" | "C14" | "C15" | "C18" | "C19" | "C20" | "C22" | "C23", _) => fam,
        (_, 0..=9) => "vast",
        (_, 10..=99) => "long",
        _ => fam,
    };
    let mut g = G { r, lv, at: crate::robot::Srv::q_init(seed, 0) };
    let mut p = g.plan(property, fam, seed);
    match fam {
        "read" => g.f_read(&mut p),
        "motion" => g.f_motion(&mut p, property),
        "request" => g.f_request(&mut p),
        "loss" => g.f_loss(&mut p),
        "connect" => g.f_connect(&mut p),
        "gripper" => g.f_gripper(&mut p),
        "model" => g.f_model(&mut p, property),
        "rt" => g.f_rt(&mut p),
        "foreign" => g.f_foreign(&mut p),
        "poison" => g.f_poison(&mut p),
        "two" => g.f_two(&mut p),
        "intr" => g.f_intr(&mut p),
        "long" => g.f_long(&mut p, property, false),
        "vast" => g.f_long(&mut p, property, true),
        _ => g.f_jm(&mut p),
    }
    if g.r.chance(0.1) {
        let d = g.r.range(-3_600_000_000_000, 3_600_000_000_000);
        let t = g.r.logu(1e6, 5e8) as u64;
        p.timeline.push(Timed { trig: Trig::At(t), act: Act::WallJump { delta: d } });
    }
    // one rate per kind
    let mut seen = vec![];
    p.rates.retain(|(k, _)| {
        let n = !seen.contains(k);
        seen.push(*k);
        n
    });
    p
}
