//! The simulated peers: robot controllers and hands (the environment, a stub).
use crate::hist::*;
use crate::m3::*;
use crate::plan::*;
use crate::rng::*;
use crate::wire::*;
use crate::world::*;

pub const DT: f64 = 1e-3;
pub const MASK41: u64 = (1 << 41) - 1;

#[derive(Clone, Debug)]
pub struct Dyn {
    pub q: [f64; 7],
    pub dq: [f64; 7],
    pub ddq: [f64; 7],
    pub t: [f64; 16],
    pub v: [f64; 6],
    pub a: [f64; 6],
    pub el: [f64; 2],
    pub del: f64,
    pub ddel: f64,
    pub tau: [f64; 7],
}
impl Dyn {
    fn rest(&mut self) {
        self.dq = [0.; 7];
        self.ddq = [0.; 7];
        self.v = [0.; 6];
        self.a = [0.; 6];
        self.del = 0.;
        self.ddel = 0.;
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Phase {
    Pending(u32),
    Running,
    Finishing(u32),
    Stopping(u32),
    Over,
}
pub struct Motion {
    pub rec: usize,
    pub client: usize,
    pub conn: usize,
    pub req_id: u32,
    pub mg: u8,
    pub cm: u8,
    pub phase: Phase,
    pub ticks: u32,
    pub script: Script,
    pub missed: u32,
    pub committed: bool, // the abort answer is already out
    pub pending: Option<WireCmd>,
    pub last_cmd: u64,
    pub answered: bool,
}
pub struct Srv {
    pub udp_port: u16,
    pub link_down: bool,
    pub link_down_at: u64,
    pub link_epoch: u64,
    pub silent: bool,
    pub silence_epoch: u64,
    pub burst: u64,
    pub conn: Option<usize>,
    pub udp: Option<usize>,
    pub listening: u8,
    pub dns: u8,
    pub epoch: u64,
    pub ticking: bool,
    pub next_k: u64,
    pub last_k: u64,
    pub robot_mode: u8,
    pub reflex: u64,
    pub idle_cm: u8,
    pub foreign: Option<(u8, u8, u8)>,
    pub motion: Option<Motion>,
    pub late: Option<(u8, u32, u8, u8)>, // parts, cycles, motion generator, controller
    pub dynm: Dyn,
    pub nmot: usize,
    pub dur_stop: u64,
}
fn rand_t(r: &mut Rng) -> [f64; 16] {
    let v = [r.uni(-2., 2.), r.uni(-2., 2.), r.uni(-2., 2.)];
    // the orientations robots are really used in: straight up, straight down, square to the base
    let m = match r.below(16) {
        0 | 1 => [[1., 0., 0.], [0., -1., 0.], [0., 0., -1.]],
        2 => [[-1., 0., 0.], [0., 1., 0.], [0., 0., -1.]],
        3 => [[-1., 0., 0.], [0., -1., 0.], [0., 0., 1.]],
        4 => [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
        5 => [[0., 1., 0.], [1., 0., 0.], [0., 0., -1.]],
        6 => [[0., 0., 1.], [1., 0., 0.], [0., 1., 0.]],
        7 => {
            let n = norm(&v).max(1e-3);
            let e = r.logu(1e-12, 1e-2);
            rot_exp(&scale(&v, (std::f64::consts::PI - e) / n))
        }
        _ => rot_exp(&v),
    };
    make_t(&m, &[r.uni(-0.8, 0.8), r.uni(-0.8, 0.8), r.uni(0., 1.)])
}
impl Srv {
    /// where the robot's joints are in the beginning
    pub fn q_init(seed: u64, idx: usize) -> [f64; 7] {
        let mut r = Rng::new(seed, 700 + idx as u64);
        std::array::from_fn(|_| {
            let q = r.uni(-2.5, 2.5);
            r.uni(-20., 20.);
            q
        })
    }
    pub fn new(c: &ServerCfg, seed: u64, idx: usize) -> Srv {
        let mut r = Rng::new(seed, 700 + idx as u64);
        let mut q = [0.; 7];
        let mut tau = [0.; 7];
        for i in 0..7 {
            q[i] = r.uni(-2.5, 2.5);
            tau[i] = r.uni(-20., 20.);
        }
        let t = rand_t(&mut r);
        Srv {
            udp_port: c.udp_port,
            link_down: false,
            link_down_at: 0,
            link_epoch: 0,
            silent: false,
            silence_epoch: 0,
            burst: 0,
            conn: None,
            udp: None,
            listening: c.listening,
            dns: c.dns,
            epoch: 0,
            ticking: false,
            next_k: 0,
            last_k: 0,
            robot_mode: RM_IDLE,
            reflex: c.errors & MASK41,
            idle_cm: *r.pick(&[CM_OTHER, CM_OTHER, CM_JOINT_IMP, CM_CART_IMP]),
            foreign: None,
            motion: None,
            late: None,
            dynm: Dyn {
                q,
                dq: [0.; 7],
                ddq: [0.; 7],
                t,
                v: [0.; 6],
                a: [0.; 6],
                el: [r.uni(-2., 2.), if r.chance(0.5) { 1. } else { -1. }],
                del: 0.,
                ddel: 0.,
                tau,
            },
            nmot: 0,
            dur_stop: 0,
        }
    }
    pub fn reboot(&mut self) {
        self.motion = None;
        self.late = None;
        self.foreign = None;
        self.robot_mode = RM_IDLE;
        self.conn = None;
        self.udp = None;
        self.ticking = false;
        self.epoch += 1;
        self.dynm.rest();
    }
}
pub fn wall_of(content: u64) -> ([f64; 3], [f64; 16], bool) {
    let mut r = Rng::new(content, 31);
    let mut a = [0.; 3];
    let mut b = [0.; 16];
    for x in a.iter_mut() {
        *x = r.weird_f64();
    }
    for x in b.iter_mut() {
        *x = r.weird_f64();
    }
    (a, b, r.chance(0.5))
}
fn clampf(x: f64) -> f64 {
    if x.is_finite() {
        x.clamp(-1e6, 1e6)
    } else {
        0.
    }
}

impl World {
    fn period(&self, srv: usize) -> u64 {
        self.plan.servers[srv].period
    }
    fn tick_time(&self, srv: usize, k: u64) -> u64 {
        let c = &self.plan.servers[srv];
        let j = if c.tick_jitter == 0 { 0 } else { h3(self.seed, 300 + srv as u64, k) % c.tick_jitter };
        k * c.period + j
    }
    pub fn start_ticks(&mut self, srv: usize) {
        if self.servers[srv].ticking || self.servers[srv].conn.is_none() || !self.plan.servers[srv].send_states {
            return;
        }
        let from = self.now + self.plan.servers[srv].first_state_delay;
        let k = (from / self.period(srv) + 1).max(self.servers[srv].last_k + 1);
        self.servers[srv].ticking = true;
        self.servers[srv].next_k = k;
        self.servers[srv].epoch += 1;
        let e = self.servers[srv].epoch;
        let t = self.tick_time(srv, k);
        self.at(t, Ev::Tick(srv, e));
    }
    pub fn tick(&mut self, srv: usize, epoch: u64) {
        if self.servers[srv].epoch != epoch || !self.servers[srv].ticking {
            return;
        }
        if self.servers[srv].conn.is_none() {
            self.servers[srv].ticking = false;
            return;
        }
        let k = self.servers[srv].next_k;
        self.servers[srv].last_k = k;
        let id = self.plan.servers[srv].id0 + k;
        if self.servers[srv].link_down && self.now > self.servers[srv].link_down_at + 10 * SEC {
            // gone for good: nothing it sends will ever matter, so it is not recorded
            if !self.plan.servers[srv].gripper {
                self.advance(srv, id);
            }
        } else if self.plan.servers[srv].gripper {
            let g = self.grip_state(srv, id as u32);
            self.hist.grips[srv].push(g.clone());
            if let Some(u) = self.servers[srv].udp {
                self.srv_udp(srv, u, g.encode(), id as u32 as u64);
            }
        } else {
            self.advance(srv, id);
            let st = self.robot_state(srv, id);
            let b = st.encode();
            self.hist.states[srv].push(st);
            if let Some(u) = self.servers[srv].udp {
                self.srv_udp(srv, u, b, id);
            }
        }
        self.servers[srv].next_k = k + 1;
        let t = self.tick_time(srv, k + 1);
        self.at(t, Ev::Tick(srv, epoch));
    }
    fn grip_state(&self, srv: usize, id: u32) -> WireGrip {
        let h = h3(self.seed, ST_FIELD + 40 + srv as u64, id as u64);
        let mut r = Rng::new(h, 1);
        WireGrip { id, width: r.weird_f64(), max_width: r.weird_f64(), grasped: (r.next() & 1) as u8, temp: r.next() as u16 }
    }
    fn robot_state(&self, srv: usize, id: u64) -> WireState {
        let s = &self.servers[srv];
        let c = &self.plan.servers[srv];
        let mut f = Box::new([0f64; NF]);
        for i in 0..NF {
            let h = h3(self.seed, ST_FIELD + srv as u64, id.wrapping_mul(512).wrapping_add(i as u64));
            f[i] = if h & 0x3f == 7 {
                let mut r = Rng::new(h, 2);
                r.weird_f64()
            } else {
                unit(h) * 20. - 10.
            };
        }
        let mut r = Rng::new(h3(self.seed, ST_FIELD + 20 + srv as u64, id), 9);
        for off in [O_T_EE, O_T_EE_D, F_T_EE, EE_T_K, F_T_NE, NE_T_EE] {
            let t = rand_t(&mut r);
            f[off..off + 16].copy_from_slice(&t);
        }
        f[M_EE] = r.uni(0., 4.);
        f[M_LOAD] = r.uni(0., 4.);
        match c.zero_mass {
            1 => f[M_EE] = 0.,
            2 => f[M_LOAD] = 0.,
            3 => {
                f[M_EE] = 0.;
                f[M_LOAD] = 0.;
            }
            4 => {
                let z = r.below(4);
                if z & 1 == 1 {
                    f[M_EE] = 0.;
                }
                if z & 2 == 2 {
                    f[M_LOAD] = 0.;
                }
            }
            _ => {}
        }
        for (o, n) in [(I_EE, 9), (F_X_CEE, 3), (I_LOAD, 9), (F_X_CLOAD, 3)] {
            for i in 0..n {
                f[o + i] = r.uni(-0.5, 0.5);
            }
        }
        let d = &s.dynm;
        f[Q_D..Q_D + 7].copy_from_slice(&d.q);
        f[DQ_D..DQ_D + 7].copy_from_slice(&d.dq);
        f[DDQ_D..DDQ_D + 7].copy_from_slice(&d.ddq);
        f[O_T_EE_C..O_T_EE_C + 16].copy_from_slice(&d.t);
        f[O_DP_EE_C..O_DP_EE_C + 6].copy_from_slice(&d.v);
        f[O_DDP_EE_C..O_DDP_EE_C + 6].copy_from_slice(&d.a);
        f[ELBOW_C] = d.el[0];
        f[ELBOW_C + 1] = d.el[1];
        f[DELBOW_C] = d.del;
        f[DELBOW_C + 1] = 0.;
        f[DDELBOW_C] = d.ddel;
        f[DDELBOW_C + 1] = 0.;
        f[TAU_J_D..TAU_J_D + 7].copy_from_slice(&d.tau);
        let (mut mg, mut cm, mut mode) = (MG_IDLE, s.idle_cm, s.robot_mode);
        if let Some((a, b, m)) = s.foreign {
            mg = a;
            cm = b;
            mode = m;
        }
        if let Some(m) = &s.motion {
            if matches!(m.phase, Phase::Running | Phase::Finishing(_) | Phase::Stopping(_)) {
                mg = m.mg;
                cm = m.cm;
                mode = RM_MOVE;
            }
            if let Phase::Pending(n) = m.phase {
                let (parts, k) = m.script.early;
                // (never so that the motion seems to run already: libfranka takes these two for it)
                let seems = parts & 1 != 0 && (parts & 2 != 0 || cm == m.cm);
                if m.ticks + k >= n && !seems {
                    if parts & 1 != 0 {
                        mg = m.mg;
                    }
                    if parts & 2 != 0 {
                        cm = m.cm;
                    }
                    if parts & 4 != 0 {
                        mode = RM_MOVE;
                    }
                }
            }
        } else if let Some((parts, _, g, c)) = s.late {
            // (never so that the motion seems to go on)
            if parts & 7 != 7 && !(parts == 5 && c == cm) {
                if parts & 1 != 0 {
                    mg = g;
                }
                if parts & 2 != 0 {
                    cm = c;
                }
                if parts & 4 != 0 {
                    mode = RM_MOVE;
                }
            }
        }
        let errors = if c.errors == 0 { 0 } else { r.next() & r.next() & MASK41 };
        WireState { id, f, mg, cm, errors, reflex: s.reflex, mode, rate: r.f() }
    }
    /// one robot cycle: take the newest command, move on the motion's life cycle
    fn advance(&mut self, srv: usize, id: u64) {
        let now = self.now;
        let period = self.period(srv);
        let lost_limit = self.plan.servers[srv].lost_limit;
        let Some(mut m) = self.servers[srv].motion.take() else {
            self.servers[srv].dynm.rest();
            let l = self.servers[srv].late.take();
            self.servers[srv].late = l.filter(|l| l.1 > 1).map(|l| (l.0, l.1 - 1, l.2, l.3));
            return;
        };
        m.ticks += 1;
        let mut over: Option<(EndKind, u8, u8, u64)> = None; // kind status mode reflex
        match m.phase.clone() {
            Phase::Pending(n) => {
                self.servers[srv].dynm.rest();
                let sa = m.script.start_abort.clone();
                if let Some(a) = sa.filter(|a| m.ticks > a.after_ticks && m.ticks <= n) {
                    over = Some((EndKind::StartAbort, a.status, a.robot_mode, a.reflex));
                } else if m.ticks >= n {
                    m.phase = Phase::Running;
                    m.ticks = 0;
                    self.hist.motions[m.rec].run = Some((now, id));
                    self.note(|| format!("robot {}: motion runs, state {}", srv, id));
                    if let Some(a) = &m.script.abort {
                        if a.resp_delay < 0 {
                            let t = (now + a.after_ticks.max(1) as u64 * period).saturating_sub(a.resp_delay.unsigned_abs()).max(now);
                            let rec = m.rec;
                            self.at(t, Ev::AbortResp { srv, motion: rec });
                        }
                    }
                }
            }
            Phase::Running | Phase::Finishing(_) => {
                let c = m.pending.take();
                match c {
                    Some(c) => {
                        m.missed = 0;
                        m.last_cmd = c.id;
                        apply(&mut self.servers[srv].dynm, m.mg, m.cm, &c);
                        if c.finished != 0 && m.phase == Phase::Running && !m.committed {
                            let n = m.script.finish_ticks;
                            m.phase = Phase::Finishing(n);
                            self.hist.motions[m.rec].fin_seen = Some(now);
                            self.note(|| format!("robot {}: end of motion announced", srv));
                            if m.script.finish_resp_delay < 0 {
                                let t = (now + n as u64 * period).saturating_sub(m.script.finish_resp_delay.unsigned_abs()).max(now);
                                let (rec, st) = (m.rec, m.script.finish_status);
                                self.at(t, Ev::MoveResp { srv, motion: rec, status: st });
                            }
                        }
                    }
                    None => {
                        m.missed += 1;
                        coast(&mut self.servers[srv].dynm, m.mg);
                    }
                }
                if m.phase == Phase::Running {
                    if let Some(a) = m.script.abort.clone() {
                        if m.ticks >= a.after_ticks.max(1) && (m.committed || a.resp_delay >= 0) {
                            over = Some((EndKind::Abort, a.status, a.robot_mode, a.reflex));
                        }
                    }
                    if over.is_none() && !m.committed && lost_limit > 0 && m.missed >= lost_limit {
                        over = Some((EndKind::LostCmd, MS_REFLEX, RM_REFLEX, 1 << 25));
                    }
                } else if let Phase::Finishing(n) = m.phase {
                    if n == 0 {
                        let st = m.script.finish_status;
                        let (md, rf) = if st == MS_REFLEX {
                            (RM_REFLEX, h3(self.seed, 611, m.rec as u64) & h3(self.seed, 612, m.rec as u64) & MASK41)
                        } else if st == MS_EMERGENCY {
                            (RM_USERSTOP, 0)
                        } else {
                            (RM_IDLE, 0)
                        };
                        over = Some((EndKind::Finish, st, md, rf));
                    } else {
                        m.phase = Phase::Finishing(n - 1);
                    }
                }
            }
            Phase::Stopping(n) => {
                coast(&mut self.servers[srv].dynm, m.mg);
                if n == 0 {
                    over = Some((EndKind::Stop, MS_PREEMPTED, RM_IDLE, 0));
                } else {
                    m.phase = Phase::Stopping(n - 1);
                }
            }
            Phase::Over => {}
        }
        if let Some((kind, status, mode, reflex)) = over {
            self.servers[srv].dynm.rest();
            self.servers[srv].robot_mode = mode;
            self.servers[srv].reflex = reflex & MASK41;
            self.hist.motions[m.rec].end = Some(MotionEnd { t: now, id, kind, status, reflex: reflex & MASK41 });
            self.note(|| format!("robot {}: motion over ({:?}, status {}), state {}", srv, kind, status, id));
            m.phase = Phase::Over;
            if m.script.late.1 > 0 && kind != EndKind::StartAbort {
                self.servers[srv].late = Some((m.script.late.0, m.script.late.1, m.mg, m.cm));
            }
            let rec = m.rec;
            let lastresp = 2 * MS;
            match kind {
                EndKind::Abort => {
                    let d = m.script.abort.as_ref().unwrap().resp_delay;
                    if d >= 0 {
                        self.at(now + d as u64, Ev::MoveResp { srv, motion: rec, status });
                    }
                }
                EndKind::StartAbort => {
                    let d = m.script.start_abort.as_ref().unwrap().resp_delay.max(0) as u64;
                    // never before the first answer
                    let t0 = self.hist.motions[rec].t_req + m.script.resp_delay + 1;
                    self.at((now + d).max(t0), Ev::MoveResp { srv, motion: rec, status });
                }
                EndKind::LostCmd => {
                    let d = h3(self.seed, 613, rec as u64) % lastresp;
                    let t0 = self.hist.motions[rec].t_req + m.script.resp_delay + 1;
                    self.at((now + d).max(t0), Ev::MoveResp { srv, motion: rec, status });
                }
                EndKind::Finish => {
                    if m.script.finish_resp_delay >= 0 {
                        let d = m.script.finish_resp_delay as u64;
                        self.at(now + d, Ev::MoveResp { srv, motion: rec, status });
                    }
                }
                EndKind::Stop => {
                    if m.script.stop.move_resp == 3 {
                        let d = m.script.stop.move_resp_delay;
                        self.at(now + d, Ev::MoveResp { srv, motion: rec, status });
                    }
                }
                EndKind::Disconnect => {}
            }
            return; // the motion is gone; its answers are addressed through the record
        }
        self.servers[srv].motion = Some(m);
    }
    pub fn move_resp(&mut self, srv: usize, motion: usize, status: u8) {
        if self.hist.motions[motion].final_resp.is_some() {
            return;
        }
        let (conn, id) = (self.hist.motions[motion].conn, self.hist.motions[motion].req_id);
        if !self.conns[conn].srv_alive {
            return;
        }
        // never before the answer that accepts the motion
        let t0 = self.hist.motions[motion].t_first + 1;
        if self.now < t0 {
            self.at(t0, Ev::MoveResp { srv, motion, status });
            return;
        }
        self.hist.motions[motion].final_resp = Some((self.now, status));
        self.srv_send(conn, RC_MOVE, id, &[status]);
    }
    /// the answer to an abort that comes before the state that shows it
    pub fn abort_resp(&mut self, srv: usize, motion: usize) {
        let st = match self.servers[srv].motion.as_mut() {
            Some(m) if m.rec == motion && m.phase == Phase::Running => {
                m.committed = true;
                m.script.abort.as_ref().unwrap().status
            }
            _ => return,
        };
        self.move_resp(srv, motion, st);
    }
    pub fn srv_gone(&mut self, conn: usize) {
        if !self.conns[conn].srv_alive {
            return;
        }
        self.conns[conn].srv_alive = false;
        let srv = self.conns[conn].srv;
        let (t, s) = (self.now, self.nseq());
        self.hist.net.push((t, s, NetEv::ServerGone { conn }));
        if self.servers[srv].conn == Some(conn) {
            self.servers[srv].conn = None;
            self.servers[srv].udp = None;
            self.servers[srv].ticking = false;
            self.servers[srv].epoch += 1;
            if let Some(m) = self.servers[srv].motion.take() {
                let id = self.plan.servers[srv].id0 + self.servers[srv].last_k + 1;
                self.hist.motions[m.rec].end = Some(MotionEnd { t, id, kind: EndKind::Disconnect, status: MS_ABORTED, reflex: 0 });
                self.servers[srv].dynm.rest();
            }
        }
    }
    pub fn srv_command(&mut self, srv: usize, client: usize, bytes: &[u8]) {
        let Some(c) = WireCmd::decode(bytes) else { return };
        let cur = self.plan.servers[srv].id0 + self.servers[srv].last_k;
        if let Some(m) = self.servers[srv].motion.as_mut() {
            if m.client == client
                && matches!(m.phase, Phase::Running | Phase::Finishing(_))
                && c.id > m.last_cmd
                && c.id <= cur
                && m.pending.as_ref().map(|p| c.id > p.id).unwrap_or(true)
            {
                m.pending = Some(c);
            }
        }
    }
    pub fn srv_receive(&mut self, conn: usize, bytes: &[u8]) {
        if !self.conns[conn].srv_alive {
            return;
        }
        let srv = self.conns[conn].srv;
        let g = self.plan.servers[srv].gripper;
        self.conns[conn].srv_rx.extend_from_slice(bytes);
        loop {
            if !self.conns[conn].srv_alive {
                return;
            }
            let Some((req, used)) = parse_request(&self.conns[conn].srv_rx, g) else { return };
            self.conns[conn].srv_rx.drain(..used);
            self.conns[conn].srv_done += used as u64;
            let done = self.conns[conn].srv_done;
            let mut op = None;
            while let Some((e, o)) = self.conns[conn].sent_ops.front().copied() {
                op = Some(o);
                if e <= done {
                    self.conns[conn].sent_ops.pop_front();
                }
                if e >= done {
                    break;
                }
            }
            let client = self.conns[conn].client;
            let (t, s) = (self.now, self.nseq());
            self.note(|| format!("server {} receives request {} command {} ({} bytes)", srv, req.id, req.cmd, used));
            self.tr(51, (req.cmd as u64) << 32 | req.id as u64);
            let nth = self.hist.reqs.iter().rev().filter(|r| r.client == client && r.conn == conn).take_while(|r| r.op == op).count();
            self.hist.reqs.push(ReqRec { client, op, conn, srv, t, s, req: req.clone() });
            self.conns[conn].nreq += 1;
            self.clients[client].nreq += 1;
            let n = self.clients[client].nreq;
            self.trigger(|tr| match tr {
                Trig::Req { client: c, n: k } if *c == client && *k == n => Some(0),
                _ => None,
            });
            if !self.conns[conn].srv_alive {
                return;
            }
            if self.servers[srv].link_down {
                // the trigger took the link down: the request was received, the answer is held back
            }
            self.serve(conn, srv, client, op, nth, req);
        }
    }
    fn serve(&mut self, conn: usize, srv: usize, client: usize, op: Option<usize>, nth: usize, req: Request) {
        let g = self.plan.servers[srv].gripper;
        let now = self.now;
        let plan_op = op.and_then(|o| self.plan.clients[client].ops.get(o)).cloned();
        let st = |s: u16| -> Vec<u8> {
            if g {
                s.to_le_bytes().to_vec()
            } else {
                vec![s as u8]
            }
        };
        if req.cmd == RC_CONNECT {
            let c = &self.plan.servers[srv];
            let (status, version) = (c.connect_status, c.version);
            let mut p = st(status);
            p.extend_from_slice(&version.to_le_bytes());
            let (t, s) = (now, self.nseq());
            self.hist.net.push((t, s, NetEv::Handshake { conn, status, version }));
            self.srv_send(conn, RC_CONNECT, req.id, &p);
            if status == 0 && self.conns[conn].srv_alive {
                if let Some(old) = self.servers[srv].conn {
                    if old != conn {
                        self.srv_close(old, true);
                    }
                }
                let port = if req.payload.len() >= 4 { rd_u16(&req.payload[2..]) } else { 0 };
                let u = (0..self.udps.len()).rev().find(|u| self.udps[*u].client == client && self.udps[*u].port == port && !self.udps[*u].closed);
                self.servers[srv].conn = Some(conn);
                self.servers[srv].udp = u;
                self.conns[conn].udp = u;
                self.conns[conn].handshaken = true;
                self.start_ticks(srv);
            }
            return;
        }
        let default = Resp { status: 0, delay: 100_000 };
        let resp = match &plan_op {
            Some(Op::Set { resp, .. })
            | Some(Op::Recovery { resp })
            | Some(Op::Stop { resp })
            | Some(Op::Wall { resp, .. })
            | Some(Op::LoadModel { resp, .. })
            | Some(Op::GHoming { resp })
            | Some(Op::GMove { resp, .. })
            | Some(Op::GGrasp { resp, .. })
            | Some(Op::GStop { resp }) => resp.clone(),
            Some(Op::SetDefault { resps }) => resps[nth.min(2)].clone(),
            _ => default,
        };
        if g {
            self.at(now + resp.delay, Ev::Respond { conn, cmd: req.cmd, id: req.id, payload: st(resp.status) });
            return;
        }
        let script = match &plan_op {
            Some(Op::Motion(m)) => Some(m.script.clone()),
            Some(Op::JointMotion { script, .. }) => Some(script.clone()),
            _ => None,
        };
        match req.cmd {
            RC_MOVE => {
                let script = script.unwrap_or_default();
                let (cmv, mgv) = if req.payload.len() >= 8 { (rd_u32(&req.payload), rd_u32(&req.payload[4..])) } else { (0, 0) };
                let s = &self.servers[srv];
                let busy = s.motion.is_some() || s.foreign.is_some() || s.robot_mode == RM_REFLEX || s.robot_mode == RM_USERSTOP;
                let rej = script.reject.or(if busy || mgv > 3 || cmv > 2 { Some(MS_NOTPOSSIBLE) } else { None });
                let rec = self.hist.motions.len();
                self.hist.motions.push(MotionRec {
                    client,
                    op: op.unwrap_or(0),
                    conn,
                    srv,
                    req_id: req.id,
                    t_req: now,
                    t_first: now + script.resp_delay,
                    mg: mgv as u8 + 1,
                    cm: cmv as u8,
                    rejected: rej,
                    run: None,
                    fin_seen: None,
                    end: None,
                    final_resp: None,
                });
                let status = rej.unwrap_or(MS_STARTED);
                self.at(now + script.resp_delay, Ev::Respond { conn, cmd: RC_MOVE, id: req.id, payload: vec![status] });
                if rej.is_none() {
                    let n = script.mode_ticks.max(1);
                    let id = self.plan.servers[srv].id0 + self.servers[srv].last_k;
                    self.servers[srv].reflex = 0;
                    self.servers[srv].late = None;
                    self.servers[srv].motion = Some(Motion {
                        rec,
                        client,
                        conn,
                        req_id: req.id,
                        mg: mgv as u8 + 1,
                        cm: cmv as u8,
                        phase: Phase::Pending(n),
                        ticks: 0,
                        script,
                        missed: 0,
                        committed: false,
                        pending: None,
                        last_cmd: id,
                        answered: false,
                    });
                }
            }
            RC_STOP => {
                let (status, delay) = match &script {
                    Some(s) => (s.stop.status, s.stop.delay),
                    None => (resp.status as u8, resp.delay),
                };
                let mut first = None;
                if status == 0 {
                    if let Some(m) = self.servers[srv].motion.as_mut() {
                        if !matches!(m.phase, Phase::Stopping(_)) && !m.committed {
                            let sc = m.script.stop.clone();
                            m.phase = Phase::Stopping(sc.idle_ticks);
                            first = Some((m.rec, sc));
                        }
                    }
                }
                if let Some((rec, sc)) = &first {
                    if sc.move_resp == 1 {
                        self.move_resp(srv, *rec, MS_PREEMPTED);
                    }
                    if sc.move_resp == 2 {
                        self.at(now + delay + 1 + sc.move_resp_delay, Ev::MoveResp { srv, motion: *rec, status: MS_PREEMPTED });
                    }
                }
                self.at(now + delay, Ev::Respond { conn, cmd: RC_STOP, id: req.id, payload: vec![status] });
            }
            RC_RECOVERY => {
                if resp.status == 0 {
                    self.servers[srv].robot_mode = RM_IDLE;
                    self.servers[srv].reflex = 0;
                }
                self.at(now + resp.delay, Ev::Respond { conn, cmd: req.cmd, id: req.id, payload: vec![resp.status as u8] });
            }
            RC_GETLIM => {
                let content = match &plan_op {
                    Some(Op::Wall { content, .. }) => *content,
                    _ => 1,
                };
                let (a, b, act) = wall_of(content);
                let mut p = vec![resp.status as u8];
                p.extend(le(&a));
                p.extend(le(&b));
                p.push(act as u8);
                self.at(now + resp.delay, Ev::Respond { conn, cmd: req.cmd, id: req.id, payload: p });
            }
            RC_MODEL => {
                let mut p = vec![resp.status as u8];
                if resp.status == 0 {
                    let n = self.plan.servers[srv].blob_len.min(self.blob.len());
                    p.extend_from_slice(&self.blob[..n]);
                }
                self.at(now + resp.delay, Ev::Respond { conn, cmd: req.cmd, id: req.id, payload: p });
            }
            _ => self.at(now + resp.delay, Ev::Respond { conn, cmd: req.cmd, id: req.id, payload: vec![resp.status as u8] }),
        }
    }
}
/// kinematics of the commanded values
fn apply(d: &mut Dyn, mg: u8, cm: u8, c: &WireCmd) {
    match mg {
        1 => {
            for i in 0..7 {
                let q = clampf(c.q[i]);
                let v = clampf((q - d.q[i]) / DT);
                d.ddq[i] = clampf((v - d.dq[i]) / DT);
                d.dq[i] = v;
                d.q[i] = q;
            }
        }
        2 => {
            for i in 0..7 {
                let v = clampf(c.dq[i]);
                d.ddq[i] = clampf((v - d.dq[i]) / DT);
                d.dq[i] = v;
                d.q[i] = clampf(d.q[i] + v * DT);
            }
        }
        3 => {
            let r = rot_log(&mul(&rot_of(&c.pose), &tr(&rot_of(&d.t))));
            let p = trans_of(&c.pose);
            for i in 0..3 {
                let v = clampf((clampf(p[i]) - d.t[12 + i]) / DT);
                d.a[i] = clampf((v - d.v[i]) / DT);
                d.v[i] = v;
                let w = clampf(r[i] / DT);
                d.a[3 + i] = clampf((w - d.v[3 + i]) / DT);
                d.v[3 + i] = w;
            }
            // the reported pose is always a clean transformation
            d.t = make_t(&m_of(&q_of(&rot_of(&c.pose))), &[clampf(p[0]), clampf(p[1]), clampf(p[2])]);
        }
        _ => {
            for i in 0..6 {
                let v = clampf(c.twist[i]);
                d.a[i] = clampf((v - d.v[i]) / DT);
                d.v[i] = v;
            }
            integrate(d);
        }
    }
    if mg >= 3 {
        if c.valid_elbow != 0 {
            let e = clampf(c.elbow[0]);
            let v = clampf((e - d.el[0]) / DT);
            d.ddel = clampf((v - d.del) / DT);
            d.del = v;
            d.el = [e, if c.elbow[1] < 0. { -1. } else { 1. }];
        } else {
            d.del = 0.;
            d.ddel = 0.;
        }
    }
    if cm == CM_EXTERNAL {
        for i in 0..7 {
            d.tau[i] = clampf(c.tau[i]);
        }
    }
}
fn integrate(d: &mut Dyn) {
    let w = [d.v[3] * DT, d.v[4] * DT, d.v[5] * DT];
    let m = m_of(&q_of(&mul(&rot_exp(&w), &rot_of(&d.t))));
    let p = [clampf(d.t[12] + d.v[0] * DT), clampf(d.t[13] + d.v[1] * DT), clampf(d.t[14] + d.v[2] * DT)];
    d.t = make_t(&m, &p);
}
/// a cycle without a command: the robot keeps its velocity
fn coast(d: &mut Dyn, mg: u8) {
    match mg {
        1 | 2 => {
            for i in 0..7 {
                d.q[i] = clampf(d.q[i] + d.dq[i] * DT);
                d.ddq[i] = 0.;
            }
        }
        _ => {
            integrate(d);
            d.a = [0.; 6];
            d.el[0] = clampf(d.el[0] + d.del * DT);
            d.ddel = 0.;
        }
    }
}
