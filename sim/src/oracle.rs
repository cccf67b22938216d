//! Checks over the recorded history of a run. Every history is checked against every property;
//! each finding carries the properties it contradicts.
use crate::hist::*;
use crate::m3::*;
use crate::plan::*;
use crate::refmodel as rm;
use crate::robot::{wall_of, MASK41};
use crate::wire::*;
use crate::world::{End, MS, SEC};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Finding {
    pub tags: Vec<String>,
    pub msg: String,
}
pub struct In<'a> {
    pub plan: &'a Plan,
    pub h: &'a Hist,
    pub end: End,
    pub now: u64,
    pub fired: &'a [(FK, u64, u64)],
    pub conn_udp: Vec<Option<usize>>,
    pub conn_srv: Vec<usize>,
    pub final_file: i8,
}
struct Sess {
    conn: usize,
    srv: usize,
    gripper: bool,
    enforce: bool,
    log_size: usize,
    failed: bool,
    moved: bool,
}
type Key = (usize, usize);
type Map<'a, T> = std::collections::HashMap<Key, std::rc::Rc<Vec<&'a T>>>;
/// the history by operation, connection and socket
#[derive(Default)]
struct Idx<'a> {
    cbs: Map<'a, CbRec>,
    reqs: Map<'a, ReqRec>,
    cmds: Map<'a, CmdRec>,
    resps: Map<'a, RespRec>,
    motions: Map<'a, MotionRec>,
    arr: std::collections::HashMap<usize, std::rc::Rc<Vec<&'a ArrRec>>>,
}
fn group<'a, T, K: std::hash::Hash + Eq>(v: &'a [T], f: impl Fn(&T) -> Option<K>) -> std::collections::HashMap<K, std::rc::Rc<Vec<&'a T>>> {
    let mut m: std::collections::HashMap<K, Vec<&'a T>> = Default::default();
    for x in v {
        if let Some(k) = f(x) {
            m.entry(k).or_default().push(x);
        }
    }
    m.into_iter().map(|(k, v)| (k, std::rc::Rc::new(v))).collect()
}
fn pick<'a, T>(m: &Map<'a, T>, k: Key) -> impl Iterator<Item = &'a T> + use<'a, T> {
    let v = m.get(&k).cloned().unwrap_or_default();
    (0..v.len()).map(move |i| v[i])
}
struct O<'a> {
    x: Idx<'a>,
    i: In<'a>,
    out: Vec<Finding>,
    slack: u64,
    intr: bool,
    multi: bool,
    extra: Vec<&'static str>,
}
const UNIT: u64 = 100 * MS;

fn bits(a: &[f64], b: &[f64]) -> Option<usize> {
    (0..a.len()).find(|i| a[*i].to_bits() != b[*i].to_bits())
}
/// zero of either sign counts as zero
fn zero(a: &[f64]) -> bool {
    a.iter().all(|x| *x == 0.)
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= tol * (1. + a.abs().max(b.abs()))
}
fn norm_txt(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase()
}
fn has(m: &str, k: &str) -> bool {
    norm_txt(m).contains(&norm_txt(k))
}
pub fn move_keyword(status: u8) -> &'static str {
    match status {
        MS_PREEMPTED => "preempted",
        MS_NOTPOSSIBLE => "not possible",
        MS_SINGULAR => "singular pose",
        MS_INVALIDARG => "maximum path deviation",
        MS_REFLEX => "reflex",
        MS_EMERGENCY => "User Stop",
        MS_INPUT => "invalid input",
        _ => "aborted",
    }
}
fn moving(s: &WireState) -> bool {
    s.mg != MG_IDLE || s.cm == CM_EXTERNAL
}
fn id_of(v: &View) -> u64 {
    (v.time_ns / 1_000_000) as u64
}
/// totals implied by a datagram: mass, centre, inertia (column major)
fn totals(s: &WireState) -> (f64, [f64; 3], [f64; 9]) {
    let (me, ml) = (s.f[M_EE], s.f[M_LOAD]);
    let (xe, xl) = (s.arr::<3>(F_X_CEE), s.arr::<3>(F_X_CLOAD));
    let m = me + ml;
    let mut x = [0.; 3];
    if m > 0. {
        for i in 0..3 {
            x[i] = (me * xe[i] + ml * xl[i]) / m;
        }
    }
    let mut t = [0.; 9];
    for (mm, xx, off) in [(me, xe, I_EE), (ml, xl, I_LOAD)] {
        if mm == 0. {
            continue;
        }
        let n2 = dot(&xx, &xx);
        for c in 0..3 {
            for r in 0..3 {
                let d = if r == c { n2 } else { 0. };
                t[c * 3 + r] += s.f[off + c * 3 + r] + mm * (d - xx[r] * xx[c]);
            }
        }
    }
    let n2 = dot(&x, &x);
    for c in 0..3 {
        for r in 0..3 {
            let d = if r == c { n2 } else { 0. };
            t[c * 3 + r] -= m * (d - x[r] * x[c]);
        }
    }
    (m, x, t)
}
fn list(mask: u64) -> Vec<usize> {
    (0..41).filter(|i| mask >> i & 1 == 1).collect()
}

fn number_after(text: &str, key: &str) -> Option<f64> {
    let s = text.split(key).nth(1)?.trim_start();
    let e = s.find(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c))).unwrap_or(s.len());
    s[..e].parse().ok()
}
/// the last answer to the motion request of an operation
fn log_status(h: &Hist, r: &OpRec, conn: usize) -> Option<u8> {
    h.motions.iter().find(|m| m.client == r.client && m.op == r.op && m.conn == conn)?.final_resp.map(|x| x.1)
}
pub fn check(i: In) -> Vec<Finding> {
    let sm = i.plan.cfg.stall_max.max(1);
    let slack: u64 = i.fired.iter().filter(|f| f.0 == FK::Stall).map(|f| f.2 % sm).sum();
    // working through a long backlog takes its time
    let slack = slack + if i.plan.cfg.rcvbuf > 64 { 6 * i.plan.cfg.rcvbuf as u64 * i.plan.cfg.cost_max } else { 0 };
    let intr = i.fired.iter().any(|f| matches!(f.0, FK::Eintr | FK::Spurious | FK::ShortRead | FK::ShortWrite));
    let multi = i.plan.clients.len() > 1;
    let h = i.h;
    let x = Idx {
        cbs: group(&h.cbs, |b| Some((b.client, b.op))),
        reqs: group(&h.reqs, |q| q.op.map(|o| (q.client, o))),
        cmds: group(&h.cmds, |q| q.op.map(|o| (q.client, o))),
        resps: group(&h.resps, |x| Some((x.conn, x.id as usize))),
        motions: group(&h.motions, |m| Some((m.client, m.op))),
        arr: group(&h.arrivals, |a| Some(a.sock)),
    };
    let mut o = O { x, i, out: vec![], slack, intr, multi, extra: vec![] };
    o.run();
    o.out
}

impl<'a> O<'a> {
    fn bad(&mut self, tags: &[&str], msg: String) {
        let mut t: Vec<String> = tags.iter().map(|s| s.to_string()).collect();
        for e in &self.extra {
            t.push(e.to_string());
        }
        if self.intr {
            t.push("C22".into());
        }
        t.sort();
        t.dedup();
        if self.out.len() < 40 {
            self.out.push(Finding { tags: t, msg });
        }
    }
    fn loss(&self, conn: usize) -> Option<(u64, u64)> {
        self.i.h.net.iter().find(|(_, _, e)| matches!(e, NetEv::Loss { conn: c } if *c == conn)).map(|(t, s, _)| (*t, *s))
    }
    /// what reached the client's datagram socket, in order
    fn arrivals(&self, conn: usize) -> std::rc::Rc<Vec<&'a ArrRec>> {
        match self.i.conn_udp.get(conn).copied().flatten().and_then(|u| self.x.arr.get(&u)) {
            Some(v) => v.clone(),
            None => Default::default(),
        }
    }
    fn cbs_of(&self, r: &OpRec) -> impl Iterator<Item = &'a CbRec> + use<'a> {
        pick(&self.x.cbs, (r.client, r.op))
    }
    fn reqs_of(&self, r: &OpRec) -> impl Iterator<Item = &'a ReqRec> + use<'a> {
        pick(&self.x.reqs, (r.client, r.op))
    }
    fn cmds_of(&self, r: &OpRec) -> impl Iterator<Item = &'a CmdRec> + use<'a> {
        pick(&self.x.cmds, (r.client, r.op))
    }
    fn resps_of(&self, conn: usize, id: u32) -> impl Iterator<Item = &'a RespRec> + use<'a> {
        pick(&self.x.resps, (conn, id as usize))
    }
    fn motions_of(&self, r: &OpRec) -> impl Iterator<Item = &'a MotionRec> + use<'a> {
        pick(&self.x.motions, (r.client, r.op))
    }
    fn run(&mut self) {
        let h = self.i.h;
        let n = self.i.plan.clients.len();
        self.global();
        for c in 0..n {
            self.client(c, h);
        }
    }
    /// checks that do not depend on which call was running
    fn global(&mut self) {
        let h = self.i.h;
        for (k, _) in self.i.conn_srv.clone().iter().enumerate() {
            let mut ids = std::collections::HashSet::new();
            for r in h.reqs.iter().filter(|r| r.conn == k) {
                let g = self.i.plan.servers[r.srv].gripper;
                let hl = if g { 10 } else { 12 };
                if r.req.size as usize != hl + r.req.payload.len() {
                    self.bad(&["C13"], format!("request {} (command {}) has length field {} but {} bytes follow the header", r.req.id, r.req.cmd, r.req.size, r.req.payload.len()));
                }
                if !ids.insert(r.req.id) {
                    self.bad(if g { &["C13", "C12", "C16"] } else { &["C13", "C12"] }, format!("request identifier {} used twice on one connection", r.req.id));
                }
            }
        }
        for c in &h.cmds {
            let isop = c.op.and_then(|o| self.i.plan.clients[c.client].ops.get(o)).map(|o| matches!(o, Op::Motion(_) | Op::JointMotion { .. })).unwrap_or(false);
            if !isop {
                self.bad(&["C04"], format!("client {} sends a command datagram outside a motion (operation {:?})", c.client, c.op));
            }
            if c.cmd.is_none() {
                self.bad(&["C04", "C07"], format!("client {} sends a {}-byte datagram, a command has {}", c.client, c.len, CMD_LEN));
            }
            if !c.to_ok {
                self.bad(&["C04"], format!("client {} sends a command to an address the states do not come from", c.client));
            }
        }
        for (c, op, b) in &h.eval_bad {
            self.bad(&["C19"], format!("client {} operation {}: {}", c, op, b));
        }
        if self.i.final_file == 0 {
            self.bad(&["C18"], "a damaged model file is left on disk at the end of the run".into());
        }
        for (_, _, c, e) in &h.disk {
            if let DiskEv::Dlopen { path, good: false, srv: 0 } = e {
                self.bad(&["C18"], format!("client {} loads the damaged model file {}", c, path));
            }
        }
    }
    fn client(&mut self, c: usize, h: &'a Hist) {
        let ops = self.i.plan.clients[c].ops.clone();
        let mut sess: Option<Sess> = None;
        let mut rt = self.i.plan.clients[c].rt.clone();
        // file state as known from a single client's point of view
        let mut file: Option<i8> = if self.multi { None } else { Some(if self.i.plan.disk_init == 1 { 1 } else { -1 }) };
        for r in h.ops.iter().filter(|o| o.client == c) {
            let op = &ops[r.op];
            self.extra.clear();
            if let Some(s) = &sess {
                if s.failed || self.multi {
                    self.extra.push("C21");
                }
            } else if self.multi {
                self.extra.push("C21");
            }
            match op {
                Op::Connect { srv, by_name, enforce, log_size } => {
                    sess = None;
                    self.extra.clear();
                    if self.connect(r, *srv, *by_name) {
                        sess = r.conn.map(|conn| Sess {
                            conn,
                            srv: *srv,
                            gripper: self.i.plan.servers[*srv].gripper,
                            enforce: enforce.unwrap_or(true),
                            log_size: log_size.unwrap_or(50),
                            failed: false,
                            moved: false,
                        });
                    }
                    continue;
                }
                Op::Disconnect => {
                    sess = None;
                    continue;
                }
                Op::Rt(x) => {
                    rt = x.clone();
                    continue;
                }
                Op::Sleep { .. } | Op::Foreign { .. } => continue,
                _ => {}
            }
            if matches!(r.out, Outcome::Skipped) {
                continue;
            }
            let Some(s) = sess.as_mut() else { continue };
            let (conn, srv) = (s.conn, s.srv);
            if matches!(r.out, Outcome::Hang) && self.i.now < r.t0 + 10 * SEC {
                continue; // the run ended while the call had only just begun
            }
            if let Outcome::Panic(m) = &r.out {
                let excused = self.cbs_of(r).any(|b| b.invalid);
                if !excused {
                    let lost = self.loss(conn).is_some();
                    let mut t = self.area(op);
                    // the output of the last callback never made it to the wire
                    if let Some(b) = self.cbs_of(r).last() {
                        if !self.cmds_of(r).any(|x| x.s > b.s1) && !matches!(b.kind, CbKind::Read) {
                            t.push("C07");
                        }
                    }
                    if lost {
                        t.push("C14");
                    }
                    self.bad(&t, format!("client {} operation {} ({}) panicked: {}", c, r.op, crate::client::brief(op), m));
                }
            }
            match op {
                Op::Motion(m) => self.motion(r, s, m, &rt),
                Op::JointMotion { speed, goal, .. } => self.joint_motion(r, s, *speed, goal, &rt),
                Op::ReadOnce | Op::Read { .. } | Op::EvalModel { .. } => self.reads(r, op, s),
                Op::LoadModel { persistent, .. } => {
                    let after = h.model_file_after.iter().find(|x| x.0 == c && x.1 == r.op).map(|x| x.2);
                    self.load_model(r, conn, srv, *persistent, file, after);
                    if file.is_some() {
                        file = after;
                    }
                }
                Op::ServerVersion | Op::GVersion => {
                    let v = self.i.plan.servers[srv].version;
                    if !matches!(r.out, Outcome::Ok(Val::Version(x)) if x == v) {
                        self.bad(&["C15"], format!("server version query gives {}, the peer reported {}", r.out.short(), v));
                    }
                }
                Op::GRead => self.gread(r, conn, srv),
                _ => self.request(r, op, conn, srv, s.gripper),
            }
            if matches!(op, Op::Motion(_) | Op::JointMotion { .. }) {
                s.moved = true;
            }
            if matches!(r.out, Outcome::Err(..)) {
                s.failed = true;
            }
            if matches!(r.out, Outcome::Panic(_)) {
                sess = None;
            }
        }
        self.extra.clear();
        if self.multi {
            self.extra.push("C21");
        }
        self.deliveries(c);
    }
    /// properties whose subject is the given call
    fn area(&self, op: &Op) -> Vec<&'static str> {
        match op {
            Op::Motion(_) => vec!["C09", "C10"],
            Op::JointMotion { .. } => vec!["C09", "C10", "C23"],
            Op::ReadOnce | Op::Read { .. } => vec!["C01", "C14"],
            Op::EvalModel { .. } => vec!["C19"],
            Op::LoadModel { .. } => vec!["C18"],
            Op::Connect { .. } => vec!["C15"],
            Op::GRead => vec!["C17"],
            Op::GHoming { .. } | Op::GMove { .. } | Op::GGrasp { .. } | Op::GStop { .. } => vec!["C16", "C12"],
            _ => vec!["C12"],
        }
    }

    // ------------------------------------------------------------------ states
    fn view_ok(&mut self, v: &View, srv: usize, what: &str, also: &[&str]) {
        let id = id_of(v);
        let mut tags = vec!["C02"];
        tags.extend_from_slice(also);
        let Some(s) = self.i.h.state(srv, id) else {
            self.bad(&tags, format!("{}: time stamp {} belongs to no state the robot sent", what, id));
            return;
        };
        if v.time_ns != id as u128 * 1_000_000 {
            self.bad(&tags, format!("{}: time {} ns is not that of message {}", what, v.time_ns, id));
        }
        if let Some(k) = bits(&v.f[..], &s.f[..]) {
            self.bad(&tags, format!("{}: state {}: {} is {:e}, the robot sent {:e}", what, id, field_name(k), v.f[k], s.f[k]));
            return;
        }
        let (m, x, t) = totals(s);
        if !close(v.m_total, m, 1e-12) {
            self.bad(&tags, format!("{}: state {}: total mass {:e}, should be {:e}", what, id, v.m_total, m));
        }
        for k in 0..3 {
            if !close(v.fx_total[k], x[k], 1e-10) {
                self.bad(&tags, format!("{}: state {}: total centre of mass [{}] {:e}, should be {:e}", what, id, k, v.fx_total[k], x[k]));
                break;
            }
        }
        for k in 0..9 {
            if !close(v.i_total[k], t[k], 1e-9) {
                self.bad(&tags, format!("{}: state {}: total inertia [{}] {:e}, should be {:e}", what, id, k, v.i_total[k], t[k]));
                break;
            }
        }
        if v.errors != list(s.errors & MASK41) {
            self.bad(&tags, format!("{}: state {}: current errors {:?}, the robot sent {:?}", what, id, v.errors, list(s.errors)));
        }
        if v.last_errors != list(s.reflex & MASK41) {
            self.bad(&tags, format!("{}: state {}: last motion errors {:?}, the robot sent {:?}", what, id, v.last_errors, list(s.reflex)));
        }
        if v.mode != s.mode {
            self.bad(&tags, format!("{}: state {}: robot mode {}, the robot sent {}", what, id, v.mode, s.mode));
        }
        if v.rate.to_bits() != s.rate.to_bits() {
            self.bad(&tags, format!("{}: state {}: command success rate differs", what, id));
        }
    }
    /// order, exactness and freshness of everything handed to one user
    fn deliveries(&mut self, c: usize) {
        let h = self.i.h;
        // (s of delivery, s from which the library may have waited, conn, view, torque callback, op, one-shot)
        let mut ev: Vec<(u64, usize, &View, CbKind, usize, bool, u64, u64, u64, u64)> = vec![];
        for b in h.cbs.iter().filter(|b| b.client == c && b.conn != usize::MAX) {
            let one = matches!(self.i.plan.clients[c].ops[b.op], Op::EvalModel { .. });
            ev.push((b.s0, b.conn, &b.view, b.kind, b.op, one, b.s1, 0, b.t0, b.t1));
        }
        for r in h.ops.iter().filter(|r| r.client == c) {
            if let Outcome::Ok(Val::State(v)) = &r.out {
                ev.push((r.s1, r.conn.unwrap_or(0), v, CbKind::Read, r.op, true, r.s1, r.s0, r.t1, r.t1));
            }
        }
        ev.sort_by_key(|e| e.0);
        let mut starts: std::collections::HashMap<usize, u64> = Default::default();
        for r in h.ops.iter().filter(|r| r.client == c) {
            starts.entry(r.op).or_insert(r.s0);
        }
        let conns: std::collections::BTreeSet<usize> = ev.iter().map(|e| e.1).collect();
        for conn in conns {
            let srv = self.i.conn_srv[conn];
            let arr = self.arrivals(conn);
            let mut last: Option<(u64, CbKind, usize, u64, u64)> = None; // id, kind, op, s1, s
            let mut last_t1 = 0;
            let mut maxid: Vec<(u64, u64)> = vec![]; // s -> running maximum id of intact queued arrivals
            let mut first_arr: std::collections::HashMap<u64, u64> = Default::default();
            let mut mx = None;
            let runts: Vec<u64> = arr.iter().filter(|a| a.runt).map(|a| a.s).collect();
            for a in arr.iter() {
                if !a.runt && a.queued {
                    mx = Some(mx.map_or(a.id, |m: u64| m.max(a.id)));
                    maxid.push((a.s, mx.unwrap()));
                    first_arr.entry(a.id).or_insert(a.s);
                }
            }
            let newest_before = |s: u64| -> Option<u64> {
                let k = maxid.partition_point(|x| x.0 < s);
                if k == 0 {
                    None
                } else {
                    Some(maxid[k - 1].1)
                }
            };
            for e in ev.iter().filter(|e| e.1 == conn) {
                let (s, _, v, kind, op, one, s1, s0, t0, t1) = *e;
                let id = id_of(v);
                let what = format!("client {} operation {}", c, op);
                self.view_ok(v, srv, &what, &[]);
                match first_arr.get(&id) {
                    Some(a) if *a < s => {}
                    _ => self.bad(&["C02", "C01"], format!("{}: state {} was handed out but had not arrived", what, id)),
                }
                let mut pair = false;
                if let Some((lid, lk, lop, ..)) = last {
                    pair = lop == op && lid == id && ((lk == CbKind::Motion && kind == CbKind::Torque) || (lk == CbKind::Torque && kind == CbKind::Motion));
                    if id <= lid && !pair {
                        self.bad(&["C01"], format!("{}: state {} handed out after state {}", what, id, lid));
                    }
                }
                if !pair {
                    let opstart = starts.get(&op).copied().unwrap_or(0);
                    let opstart = if s0 > 0 { s0 } else { opstart };
                    let from = match last {
                        Some((_, _, lop, ls1, _)) if lop == op => ls1.max(opstart),
                        _ => opstart,
                    };
                    let lastid_s = last.and_then(|l| first_arr.get(&l.0).map(|x| (*x).min(l.4))).unwrap_or(0);
                    let runt = runts.iter().any(|a| *a > lastid_s && *a < s);
                    if !runt {
                        // opstart is unknown (0) for a call that never returned
                        if let (Some(n), true) = (newest_before(from), from > 0) {
                            if id < n {
                                self.bad(&["C03"], format!("{}: state {} handed out although state {} had arrived before the library began to wait", what, id, n));
                            }
                        }
                        // continuous reading: what is already there is not held back
                        let d = 400 * self.i.plan.cfg.cost_max + self.slack;
                        if let (CbKind::Read, false, Some((lid, _, lop, ..)), Some(n)) = (kind, one, last, newest_before(from)) {
                            if lop == op && n > lid && t0 > last_t1 + d {
                                self.bad(&["C03", "C01"], format!("{}: state {} had arrived, the next state was handed out only {} us later", what, n, (t0 - last_t1) / 1000));
                            }
                        }
                        if one && from > 0 {
                            if let Some(a) = first_arr.get(&id) {
                                if *a < from {
                                    self.bad(&["C03"], format!("{}: one-shot read returned state {} which was already buffered before the call", what, id));
                                }
                            }
                        }
                    }
                }
                last_t1 = t1;
                last = Some((id, kind, op, s1, if pair { last.unwrap().4 } else { s }));
            }
        }
    }
    /// longest stretch without a usable arrival inside [t0, t1]
    fn gap(&self, conn: usize, t0: u64, t1: u64) -> u64 {
        let mut prev = t0;
        let mut g = 0;
        let arr = self.arrivals(conn);
        for a in &arr[arr.partition_point(|a| a.t < t0)..] {
            if a.runt || !a.queued {
                continue;
            }
            if a.t > t1 {
                break;
            }
            g = g.max(a.t - prev);
            prev = a.t;
        }
        g.max(t1.saturating_sub(prev))
    }
    fn trouble_on_link(&self, srv: usize) -> bool {
        self.i.h.net.iter().any(|(_, _, e)| matches!(e, NetEv::LinkDown { srv: s } if *s == srv))
    }
    fn runts(&self, conn: usize, s1: u64) -> bool {
        self.arrivals(conn).iter().any(|a| a.runt && a.s < s1)
    }
    /// a stretch of time the library spent waiting without any datagram coming in
    fn overslept(&self, r: &OpRec, conn: usize) -> Option<u64> {
        let arr = self.arrivals(conn);
        let mut marks: Vec<u64> = arr[arr.partition_point(|a| a.t < r.t0)..].iter().take_while(|a| a.t <= r.t1).map(|a| a.t).collect();
        // time inside callbacks and request round trips is not waiting for states
        for b in self.cbs_of(r) {
            marks.push(b.t0);
            marks.push(b.t1);
        }
        marks.push(r.t0);
        marks.push(r.t1);
        marks.sort_unstable();
        let mut worst = SEC + UNIT + self.slack;
        for w in marks.windows(2) {
            if w[1] - w[0] <= worst {
                continue;
            }
            let inside = self.cbs_of(r).any(|b| b.t0 <= w[0] && w[1] <= b.t1 && b.t1 > b.t0);
            if !inside {
                worst = w[1] - w[0];
            }
        }
        if worst > SEC + UNIT + self.slack {
            Some(worst)
        } else {
            None
        }
    }
    fn reads(&mut self, r: &OpRec, op: &Op, s: &Sess) {
        let conn = s.conn;
        let ncb = self.cbs_of(r).count() as u32;
        let what = format!("client {} operation {} ({})", r.client, r.op, crate::client::brief(op));
        let model = matches!(op, Op::EvalModel { .. });
        match &r.out {
            Outcome::Ok(_) => {
                if let Op::Read { n, .. } = op {
                    if ncb != (*n).max(1) {
                        self.bad(&["C01"], format!("{}: {} callbacks ran, the user asked to stop after {}", what, ncb, n));
                    }
                }
            }
            Outcome::Err(ErrK::Network, m) => {
                let g = self.gap(conn, r.t0, r.t1);
                if g < 990 * MS && !self.runts(conn, r.s1) {
                    let mut t = vec!["C14", "C01"];
                    if model {
                        t.push("C19");
                    }
                    self.bad(&t, format!("{}: network exception ({}) although states kept arriving (longest gap {} ms)", what, m, g / MS));
                }
            }
            Outcome::Err(k, m) => self.bad(&["C01", "C14"], format!("{}: unexpected {}: {}", what, k.name(), m)),
            Outcome::Hang => self.bad(&["C14", "C01"], format!("{}: never returned", what)),
            _ => {}
        }
        if !matches!(r.out, Outcome::Hang | Outcome::Crashed) {
            if let Some(w) = self.overslept(r, conn) {
                self.bad(&["C14"], format!("{}: waited {} ms without a state instead of failing after the one second timeout", what, w / MS));
            }
        }
        if self.reqs_of(r).next().is_some() {
            self.bad(&["C13"], format!("{}: a read put a request on the connection", what));
        }
    }
    fn gread(&mut self, r: &OpRec, conn: usize, srv: usize) {
        let h = self.i.h;
        let what = format!("client {} operation {} (gripper state read)", r.client, r.op);
        match &r.out {
            Outcome::Ok(Val::Grip { width, max_width, grasped, temp, time_ns }) => {
                let id = (*time_ns / 1_000_000) as u64;
                match h.grips[srv].iter().rev().find(|g| g.id as u64 == id) {
                    None => self.bad(&["C17"], format!("{}: time stamp {} belongs to no message of the hand", what, id)),
                    Some(g) => {
                        if width.to_bits() != g.width.to_bits()
                            || max_width.to_bits() != g.max_width.to_bits()
                            || *grasped != (g.grasped != 0)
                            || *temp != g.temp
                            || *time_ns != g.id as u128 * 1_000_000
                        {
                            self.bad(&["C17"], format!("{}: returned width {:e} max {:e} grasped {} temperature {} time {} ns, the hand sent {:?}", what, width, max_width, grasped, temp, time_ns, g));
                        }
                    }
                }
                let arr = self.arrivals(conn);
                let fresh = arr[arr.partition_point(|a| a.s <= r.s0)..].iter().take_while(|a| a.s < r.s1).any(|a| a.id == id && !a.runt);
                let stale = !fresh && arr.iter().any(|a| a.id == id && !a.runt && a.s <= r.s0);
                if !fresh {
                    self.bad(&["C17"], format!("{}: message {} {}", what, id, if stale { "was already buffered before the call" } else { "had not arrived" }));
                }
            }
            Outcome::Err(ErrK::Network, m) => {
                let g = self.gap(conn, r.t0, r.t1);
                if g < 990 * MS && !self.runts(conn, r.s1) {
                    self.bad(&["C17", "C14"], format!("{}: network exception ({}) although states kept arriving (longest gap {} ms)", what, m, g / MS));
                }
            }
            Outcome::Err(k, m) => self.bad(&["C17"], format!("{}: unexpected {}: {}", what, k.name(), m)),
            Outcome::Hang => self.bad(&["C17", "C14"], format!("{}: never returned", what)),
            Outcome::Panic(_) | Outcome::Crashed | Outcome::Skipped => {}
            _ => self.bad(&["C17"], format!("{}: unexpected {}", what, r.out.short())),
        }
        if !matches!(r.out, Outcome::Hang | Outcome::Crashed) {
            if let Some(w) = self.overslept(r, conn) {
                self.bad(&["C17", "C14"], format!("{}: waited {} ms without a state instead of failing after the one second timeout", what, w / MS));
            }
        }
    }

    // ------------------------------------------------------------------ requests
    fn connect(&mut self, r: &OpRec, srv: usize, by_name: bool) -> bool {
        let h = self.i.h;
        let sc = self.i.plan.servers[srv].clone();
        let what = format!("client {} operation {} (connect to {})", r.client, r.op, if sc.gripper { "gripper" } else { "robot" });
        let t = ["C15"];
        if let Outcome::Panic(m) = &r.out {
            self.bad(&t, format!("{} panicked: {}", what, m));
            return false;
        }
        if matches!(r.out, Outcome::Crashed | Outcome::Skipped) {
            return false;
        }
        let up = h.net.iter().find_map(|(_, s, e)| match e {
            NetEv::Connected { conn, client, srv: sv, .. } if *client == r.client && *s > r.s0 && (*s < r.s1 || matches!(r.out, Outcome::Hang)) => Some((*conn, *sv)),
            _ => None,
        });
        let netok = matches!(r.out, Outcome::Err(ErrK::Network, _));
        if by_name && sc.dns != 0 {
            if !netok {
                self.bad(&t, format!("{}: the name does not resolve, the call gave {}", what, r.out.short()));
            }
            return false;
        }
        let Some((conn, sv)) = up else {
            if matches!(r.out, Outcome::Hang) {
                if self.i.now > r.t0 + 135 * SEC {
                    self.bad(&t, format!("{}: never returned", what));
                }
            } else if !netok {
                self.bad(&t, format!("{}: no connection came about, the call gave {}", what, r.out.short()));
            }
            return false;
        };
        if sv != srv {
            self.bad(&t, format!("{}: connected to a different peer", what));
        }
        let reqs: Vec<&ReqRec> = h.reqs.iter().filter(|q| q.conn == conn && q.op == Some(r.op)).collect();
        if reqs.len() > 1 {
            self.bad(&["C13", "C15"], format!("{}: {} requests instead of one handshake", what, reqs.len()));
        }
        if let Some(q) = reqs.first() {
            let v = if sc.gripper { 3u16 } else { 5 };
            let p = &q.req.payload;
            if q.req.cmd != RC_CONNECT || p.len() != 4 || rd_u16(p) != v {
                self.bad(&["C13", "C15"], format!("{}: malformed handshake: command {} payload {:?}", what, q.req.cmd, p));
            }
        }
        let resp = reqs.first().and_then(|q| self.resps_of(conn, q.req.id).find(|x| x.cmd == RC_CONNECT && x.t_full.is_some()));
        let loss = self.loss(conn);
        match (&r.out, resp) {
            (Outcome::Hang, _) => {
                let lost = loss.map(|l| l.0 + 5 * SEC < self.i.now).unwrap_or(false);
                let answered = resp.map(|x| x.t_full.unwrap() + 5 * SEC < self.i.now).unwrap_or(false);
                if lost || answered {
                    self.bad(&["C15", "C14"], format!("{}: never returned", what));
                }
                false
            }
            (Outcome::Ok(v), None) => {
                self.bad(&t, format!("{}: succeeded ({:?}) although the peer never accepted", what, v));
                false
            }
            (Outcome::Ok(Val::Version(v)), Some(x)) => {
                let status = if sc.gripper { rd_u16(&x.payload) } else { x.payload[0] as u16 };
                if status != 0 {
                    self.bad(&t, format!("{}: succeeded although the peer answered with status {}", what, status));
                    return false;
                }
                if *v != sc.version {
                    self.bad(&t, format!("{}: reports server version {}, the peer said {}", what, v, sc.version));
                }
                if self.i.conn_udp[conn].is_none() {
                    self.bad(&["C13", "C15"], format!("{}: the announced UDP port is not the client's", what));
                }
                if !sc.gripper && !self.arrivals(conn).iter().any(|a| !a.runt && a.s < r.s1) {
                    self.bad(&t, format!("{}: succeeded before any robot state arrived", what));
                }
                true
            }
            (Outcome::Err(k, m), None) => {
                if !matches!(k, ErrK::Network) {
                    self.bad(&t, format!("{}: {} ({}) although the peer never answered", what, k.name(), m));
                } else if loss.is_none() {
                    self.bad(&t, format!("{}: network exception ({}) although the connection is fine", what, m));
                } else if r.t1 > loss.unwrap().0 + UNIT + self.slack {
                    self.bad(&["C15", "C14"], format!("{}: the loss was reported only after {} ms", what, (r.t1 - loss.unwrap().0) / MS));
                }
                false
            }
            (Outcome::Err(k, m), Some(x)) => {
                let status = if sc.gripper { rd_u16(&x.payload) } else { x.payload[0] as u16 };
                let tf = x.t_full.unwrap();
                let early = loss.map(|l| l.1 < r.s1).unwrap_or(false);
                match k {
                    ErrK::Incompatible { server, lib } => {
                        let lv = if sc.gripper { 3 } else { 5 };
                        if status == 0 {
                            self.bad(&t, format!("{}: incompatible-version error although the peer accepted", what));
                        } else if *server != sc.version || *lib != lv {
                            self.bad(&t, format!("{}: the error carries versions {} and {}, correct are {} and {}", what, server, lib, sc.version, lv));
                        }
                    }
                    ErrK::Network => {
                        let mut ok = early;
                        if status == 0 && !sc.gripper {
                            let a: Vec<&ArrRec> = self.arrivals(conn).iter().copied().filter(|a| a.s < r.s1 || a.t <= tf + 985 * MS).collect();
                            let first = a.first();
                            if first.map(|a| a.t > tf + 985 * MS || a.runt).unwrap_or(true) {
                                ok = true;
                            }
                            if r.t1 > tf + SEC + UNIT + self.slack {
                                self.bad(&["C15", "C14"], format!("{}: failed only {} ms after the handshake", what, (r.t1 - tf) / MS));
                            }
                        }
                        if !ok {
                            self.bad(&t, format!("{}: network exception ({}) although the peer answered with status {} and nothing was lost", what, m, status));
                        }
                    }
                    _ => self.bad(&t, format!("{}: unexpected {}: {}", what, k.name(), m)),
                }
                false
            }
            _ => {
                self.bad(&t, format!("{}: unexpected {}", what, r.out.short()));
                false
            }
        }
    }
    fn expected(&self, op: &Op) -> Vec<(u32, Vec<u8>)> {
        match op {
            Op::Set { what, .. } => vec![match what {
                Setter::Collision(v) => (RC_COLL, le(v)),
                Setter::JointImp(v) => (RC_JIMP, le(v)),
                Setter::CartImp(v) => (RC_CIMP, le(v)),
                Setter::Guiding(a, b) => {
                    let mut p: Vec<u8> = a.iter().map(|x| *x as u8).collect();
                    p.push(*b as u8);
                    (RC_GUIDE, p)
                }
                Setter::K(v) => (RC_EETOK, le(v)),
                Setter::EE(v) => (RC_NETOEE, le(v)),
                Setter::Load(m, x, i) => {
                    let mut p = le(&[*m]);
                    p.extend(le(x));
                    p.extend(le(i));
                    (RC_LOAD, p)
                }
                Setter::Filters(f) => (RC_FILTERS, le(f)),
            }],
            Op::SetDefault { .. } => {
                let mut c = vec![];
                c.extend_from_slice(&[20.; 14]);
                c.extend_from_slice(&[10.; 14]);
                c.extend_from_slice(&[20.; 12]);
                c.extend_from_slice(&[10.; 12]);
                vec![
                    (RC_COLL, le(&c)),
                    (RC_JIMP, le(&[3000., 3000., 3000., 2500., 2500., 2000., 2000.])),
                    (RC_CIMP, le(&[3000., 3000., 3000., 300., 300., 300.])),
                ]
            }
            Op::Recovery { .. } => vec![(RC_RECOVERY, vec![])],
            Op::Stop { .. } => vec![(RC_STOP, vec![])],
            Op::Wall { id, .. } => vec![(RC_GETLIM, id.to_le_bytes().to_vec())],
            Op::GHoming { .. } => vec![(1, vec![])],
            Op::GGrasp { w, s, f, ei, eo, .. } => vec![(2, le(&[*w, ei.unwrap_or(0.005), eo.unwrap_or(0.005), *s, *f]))],
            Op::GMove { w, s, .. } => vec![(3, le(&[*w, *s]))],
            Op::GStop { .. } => vec![(4, vec![])],
            _ => vec![],
        }
    }
    /// accepted texts for a status other than success; empty: not an error
    fn keywords(&self, op: &Op, status: u16) -> Vec<&'static str> {
        match op {
            Op::Recovery { .. } => vec![match status {
                1 => "not possible",
                2 => "manual error recovery",
                3 => "reflex",
                4 => "User Stop",
                _ => "aborted",
            }],
            Op::Stop { .. } => match status {
                1 => vec!["not possible"],
                2 => vec!["User Stop"],
                3 => vec!["reflex"],
                _ => vec!["not possible", "aborted"],
            },
            Op::GHoming { .. } | Op::GMove { .. } | Op::GGrasp { .. } | Op::GStop { .. } => match status {
                1 => vec!["failed"],
                3 => vec!["aborted"],
                _ => vec![],
            },
            _ => vec![if status == 1 { "not possible" } else { "invalid argument" }],
        }
    }
    fn request(&mut self, r: &OpRec, op: &Op, conn: usize, srv: usize, gripper: bool) {
        let exp = self.expected(op);
        let what = format!("client {} operation {} ({})", r.client, r.op, crate::client::brief(op));
        let mut rt = vec!["C13"];
        let mut ot = vec!["C12"];
        if gripper {
            rt.push("C16");
            ot.push("C16");
        }
        let reqs: Vec<&ReqRec> = self.reqs_of(r).collect();
        if reqs.len() > exp.len() {
            self.bad(&rt, format!("{}: {} requests on the wire, the call needs {}", what, reqs.len(), exp.len()));
        }
        for (q, (cmd, p)) in reqs.iter().zip(exp.iter()) {
            if q.conn != conn {
                self.bad(&rt, format!("{}: request on another connection", what));
            }
            if q.req.cmd != *cmd {
                self.bad(&rt, format!("{}: command {} on the wire, {} asked for", what, q.req.cmd, cmd));
            } else if q.req.payload != *p {
                let k = q.req.payload.iter().zip(p.iter()).position(|(a, b)| a != b).unwrap_or(p.len().min(q.req.payload.len()));
                self.bad(&rt, format!("{}: request payload differs from what the caller asked at byte {} ({} bytes, {} expected)", what, k, q.req.payload.len(), p.len()));
            }
        }
        let loss = self.loss(conn);
        if matches!(r.out, Outcome::Panic(_) | Outcome::Crashed | Outcome::Skipped) {
            return;
        }
        // what the peer's answers imply
        let mut want: Option<(u16, usize)> = None; // deciding status, index
        let mut t_dec = 0;
        let mut s_dec = 0;
        let mut missing = None;
        for k in 0..exp.len() {
            let x = reqs.get(k).and_then(|q| self.resps_of(conn, q.req.id).find(|x| x.cmd == q.req.cmd && x.t_full.is_some()));
            match x {
                Some(x) => {
                    let st = if gripper { rd_u16(&x.payload) } else { x.payload[0] as u16 };
                    t_dec = x.t_full.unwrap();
                    s_dec = x.s_full;
                    if st != 0 || k + 1 == exp.len() {
                        want = Some((st, k));
                        break;
                    }
                }
                None => {
                    missing = Some(k);
                    break;
                }
            }
        }
        if let Some((t, s)) = loss {
            ot.push("C14");
            if s < r.s0 && !matches!(r.out, Outcome::Err(ErrK::Network, _) | Outcome::Hang) {
                self.bad(&ot, format!("{}: the connection was already lost, the call gave {}", what, r.out.short()));
                return;
            }
            if matches!(r.out, Outcome::Err(ErrK::Network, _)) {
                if s > r.s1 {
                    self.bad(&ot, format!("{}: network exception before anything was lost: {}", what, r.out.short()));
                } else if r.t1 > t.max(r.t0) + UNIT + self.slack {
                    self.bad(&ot, format!("{}: the loss was reported only after {} ms", what, (r.t1 - t.max(r.t0)) / MS));
                } else if want.is_some() && s > s_dec {
                    let own: Vec<&str> = ot.iter().copied().filter(|x| *x != "C14").collect();
                    self.bad(&own, format!("{}: answered {} ms before the connection was lost, the call gave {}", what, (t - t_dec) / MS, r.out.short()));
                }
                return;
            }
        }
        if matches!(r.out, Outcome::Hang) {
            let lost = loss.map(|l| l.0 + 5 * SEC < self.i.now).unwrap_or(false);
            if lost || (want.is_some() && t_dec + 5 * SEC < self.i.now) {
                ot.push("C14");
                self.bad(&ot, format!("{}: never returned although {}", what, if lost { "the connection was lost" } else { "the answer had arrived" }));
            }
            if loss.is_none() && want.is_none() && missing == Some(reqs.len()) && r.t0 + 20 * SEC < self.i.now && !self.trouble_on_link(srv) {
                self.bad(&rt, format!("{}: never put a complete request on the connection", what));
            }
            return;
        }
        match (&r.out, want) {
            (_, None) => {
                self.bad(&ot, format!("{}: gave {} although request {} of the call {}", what, r.out.short(), missing.unwrap_or(0) + 1, "had not been answered"));
            }
            (out, Some((st, _))) => {
                if s_dec > r.s1 {
                    self.bad(&ot, format!("{}: gave {} before the answer had arrived", what, out.short()));
                }
                if r.t1 > t_dec + UNIT + self.slack {
                    self.bad(&ot, format!("{}: returned {} ms after the answer had arrived", what, (r.t1 - t_dec) / MS));
                }
                let kw = self.keywords(op, st);
                let good = match out {
                    Outcome::Ok(v) => {
                        let vok = match (op, v) {
                            (Op::Wall { id, content, .. }, Val::Wall(w)) => {
                                let (a, b, act) = wall_of(*content);
                                let okv = w.id == *id && bits(&w.size, &a).is_none() && bits(&w.frame, &b).is_none() && w.active == act;
                                if !okv {
                                    self.bad(&ot, format!("{}: returned data differs from what the robot sent", what));
                                }
                                true
                            }
                            (_, Val::Bool(b)) => gripper && *b == (st == 0),
                            (_, Val::Unit) => !gripper,
                            _ => false,
                        };
                        vok && (st == 0 || (gripper && st == 2))
                    }
                    Outcome::Err(ErrK::Command, m) => st != 0 && kw.iter().any(|k| has(m, k)),
                    _ => false,
                };
                if !good {
                    self.bad(&ot, format!("{}: the peer answered with status {}, the call gave {}", what, st, out.short()));
                }
            }
        }
        let _ = srv;
    }
    fn load_model(&mut self, r: &OpRec, conn: usize, srv: usize, persistent: bool, before: Option<i8>, after: Option<i8>) {
        let h = self.i.h;
        let what = format!("client {} operation {} (load model, persistent {})", r.client, r.op, persistent);
        let t = ["C18"];
        let reqs: Vec<&ReqRec> = self.reqs_of(r).collect();
        if reqs.len() > 1 {
            self.bad(&["C13", "C18"], format!("{}: {} requests on the wire", what, reqs.len()));
        }
        for q in &reqs {
            if q.req.cmd != RC_MODEL || q.req.payload != [0, 0] {
                self.bad(&["C13", "C18"], format!("{}: wrong request: command {} payload {:?}", what, q.req.cmd, q.req.payload));
            }
        }
        if before == Some(1) && !reqs.is_empty() {
            self.bad(&t, format!("{}: downloaded the model although the complete file was there", what));
        }
        if after == Some(0) {
            self.bad(&t, format!("{}: left a damaged model file behind ({})", what, r.out.short()));
        }
        let evs: Vec<&DiskEv> = h.disk.iter().filter(|(_, s, c, _)| *c == r.client && *s > r.s0 && *s < r.s1).map(|x| &x.3).collect();
        let mut fault = false;
        let mut unlink = false;
        let mut opened = false;
        let mut absent = false;
        for e in &evs {
            match e {
                DiskEv::Open { ok: false, .. } | DiskEv::Write { ok: false, .. } | DiskEv::Rename { ok: false, .. } => fault = true,
                DiskEv::Unlink { ok: false, .. } => {
                    fault = true;
                    unlink = true;
                }
                DiskEv::Dlopen { good: true, .. } => opened = true,
                DiskEv::Dlopen { good: false, srv, .. } if *srv != 0 => absent = true,
                _ => {}
            }
        }
        let loss = self.loss(conn);
        let resp = reqs.first().and_then(|q| self.resps_of(conn, q.req.id).find(|x| x.t_full.is_some()));
        let status = resp.map(|x| x.payload[0]);
        let blob = self.i.plan.servers[srv].blob_len;
        match &r.out {
            Outcome::Ok(_) => {
                if !opened {
                    self.bad(&t, format!("{}: succeeded without having loaded a complete model", what));
                }
                if let (Some(st), false) = (status, before == Some(1)) {
                    if st != 0 {
                        self.bad(&t, format!("{}: succeeded although the robot answered with status {}", what, st));
                    }
                }
                if before == Some(-1) && resp.is_none() {
                    self.bad(&t, format!("{}: succeeded without a complete download", what));
                }
            }
            Outcome::Err(k, m) => match k {
                ErrK::Network => {
                    if loss.map(|l| l.1 > r.s1).unwrap_or(true) {
                        self.bad(&["C18", "C14"], format!("{}: network exception ({}) although the connection is fine", what, m));
                    } else if r.t1 > loss.unwrap().0.max(r.t0) + UNIT + self.slack {
                        self.bad(&["C18", "C14"], format!("{}: the loss was reported only after {} ms", what, (r.t1 - loss.unwrap().0) / MS));
                    }
                }
                ErrK::Model => {
                    let robot = status.map(|s| s != 0).unwrap_or(false) || (status == Some(0) && blob == 0);
                    if !robot && !fault && !(self.multi && absent) {
                        self.bad(&t, format!("{}: failed ({}) although neither the robot nor the disk reported an error", what, m));
                    }
                }
                _ => self.bad(&t, format!("{}: unexpected {}: {}", what, k.name(), m)),
            },
            Outcome::Hang => {
                let lost = loss.map(|l| l.0 + 5 * SEC < self.i.now).unwrap_or(false);
                let ans = resp.map(|x| x.t_full.unwrap() + 5 * SEC < self.i.now).unwrap_or(false);
                if lost || ans {
                    self.bad(&["C18", "C14"], format!("{}: never returned", what));
                }
            }
            _ => {}
        }
        if matches!(r.out, Outcome::Ok(_) | Outcome::Err(..)) && !self.multi {
            if !persistent && after != Some(-1) && !unlink && (opened || before == Some(-1)) {
                self.bad(&t, format!("{}: left the model file behind", what));
            }
            if persistent && matches!(r.out, Outcome::Ok(_)) && after != Some(1) {
                self.bad(&t, format!("{}: the persistent model file is not there", what));
            }
        }
    }

    // ------------------------------------------------------------------ motions
    fn rt_check(&mut self, r: &OpRec, s: &Sess, rt: &RtCfg, what: &str) -> bool {
        let h = self.i.h;
        let t = ["C20"];
        let reqs: Vec<&ReqRec> = self.reqs_of(r).collect();
        let fails = !rt.kernel || rt.priomax_fail || rt.sched_fail || rt.mlock_fail;
        if !s.enforce {
            if matches!(r.out, Outcome::Err(ErrK::RealTime, _)) {
                self.bad(&t, format!("{}: real-time exception without enforcement", what));
            }
            return false;
        }
        if fails {
            if !matches!(r.out, Outcome::Err(ErrK::RealTime, _)) {
                self.bad(&t, format!("{}: the real-time set-up fails, the call gave {}", what, r.out.short()));
            }
            let n = self.cmds_of(r).count();
            if !reqs.is_empty() || n > 0 {
                self.bad(&t, format!("{}: the real-time set-up fails, yet {} requests and {} commands were sent", what, reqs.len(), n));
            }
            return true;
        }
        if matches!(r.out, Outcome::Err(ErrK::RealTime, _)) {
            self.bad(&t, format!("{}: real-time exception although every step of the set-up worked", what));
            return true;
        }
        if let Some(q) = reqs.iter().find(|q| q.req.cmd == RC_MOVE) {
            let (mut k, mut sc, mut ml) = (false, false, false);
            for (_, sq, c, e) in &h.rt {
                if *c != r.client || *sq < r.s0 || *sq > q.s {
                    continue;
                }
                match e {
                    RtEv::KernelCheck(b) => k |= *b,
                    RtEv::Sched { policy, prio, ok } => sc = *ok && *policy == libc::SCHED_FIFO && *prio == 98,
                    RtEv::Mlock { flags, ok } => ml |= *ok && *flags & (libc::MCL_CURRENT | libc::MCL_FUTURE) == libc::MCL_CURRENT | libc::MCL_FUTURE,
                    _ => {}
                }
            }
            if !k || !sc || !ml {
                self.bad(&t, format!("{}: the robot was asked to move before the real-time set-up was complete (kernel checked {}, scheduling class {}, memory locked {})", what, k, sc, ml));
            }
        }
        false
    }
    /// Outcome of a control call against what the robot did.
    #[allow(clippy::too_many_arguments)]
    fn motion_outcome(&mut self, r: &OpRec, s: &Sess, what: &str, cm: u8, mg: u8, invalid: bool, fin_cb: Option<bool>, cbs: usize, script_stop: Option<&StopScript>) {
        let h = self.i.h;
        let conn = s.conn;
        let reqs: Vec<&ReqRec> = self.reqs_of(r).collect();
        let moves: Vec<&&ReqRec> = reqs.iter().filter(|q| q.req.cmd == RC_MOVE).collect();
        let stops = reqs.iter().filter(|q| q.req.cmd == RC_STOP).count();
        if moves.len() > 1 || stops > 1 || reqs.len() > moves.len() + stops {
            self.bad(&["C13"], format!("{}: requests on the wire: {:?}", what, reqs.iter().map(|q| q.req.cmd).collect::<Vec<_>>()));
        }
        if let Some(q) = moves.first() {
            let mut p = (cm as u32).to_le_bytes().to_vec();
            p.extend_from_slice(&(mg as u32 - 1).to_le_bytes());
            let dev = [10., 3.12, 2. * std::f64::consts::PI];
            p.extend(le(&dev));
            p.extend(le(&dev));
            if q.req.payload != p {
                let k = q.req.payload.iter().zip(p.iter()).position(|(a, b)| a != b).unwrap_or(p.len());
                let mut t = vec!["C13"];
                if k < 8 {
                    t.push("C07");
                }
                self.bad(&t, format!("{}: the motion request differs from what was asked at byte {} ({:?})", what, k, &q.req.payload[..8.min(q.req.payload.len())]));
            }
        }
        let arr = self.arrivals(conn);
        let loss = self.loss(conn);
        let lost_in = loss.map(|l| l.1 < r.s1).unwrap_or(false);
        let gap = self.gap(conn, r.t0, r.t1);
        let senderr = h.senderr.iter().any(|(t, c)| *c == r.client && *t >= r.t0 && *t <= r.t1);
        let trouble = lost_in || gap >= 990 * MS || self.runts(conn, r.s1) || senderr;
        let mr = self.motions_of(r).find(|m| m.conn == conn);
        // C21: no motion request while the robot is known to be moving
        if let Some(q) = moves.first() {
            let lastd = self.last_delivery(r.client, conn, r.s0);
            if let Some(id) = lastd {
                let known = h.state(s.srv, id).map(moving).unwrap_or(false);
                let later: Vec<&&ArrRec> = arr.iter().filter(|a| !a.runt && a.queued && a.id > id && a.t < q.t).collect();
                let any_idle = later.iter().any(|a| h.state(s.srv, a.id).map(|x| !moving(x)).unwrap_or(true));
                if known && !any_idle {
                    self.bad(&["C21"], format!("{}: a motion was requested although every state received shows the robot moving", what));
                }
            }
        }
        if let (Some(m), false) = (mr, invalid || matches!(r.out, Outcome::Panic(_) | Outcome::Crashed | Outcome::Skipped)) {
            self.served(r, s, what, m, &arr);
        }
        let control = matches!(r.out, Outcome::Err(ErrK::Control { .. }, _));
        let net = matches!(r.out, Outcome::Err(ErrK::Network, _));
        let text = match &r.out {
            Outcome::Err(_, m) => m.clone(),
            _ => String::new(),
        };
        let mut tags = vec!["C09", "C10"];
        if lost_in {
            tags.push("C14");
        }
        match &r.out {
            Outcome::Crashed | Outcome::Skipped => return,
            Outcome::Panic(_) => return,
            Outcome::Hang => {
                let lost = loss.map(|l| l.0 + 10 * SEC < self.i.now).unwrap_or(false);
                let answered = reqs.iter().all(|q| {
                    let fin = self.resps_of(conn, q.req.id).filter(|x| x.t_full.map(|t| t + 10 * SEC < self.i.now).unwrap_or(false)).filter(|x| !(x.cmd == RC_MOVE && x.payload[0] == MS_STARTED)).count();
                    fin > 0
                });
                let states = arr.last().map(|a| a.t + 10 * SEC < self.i.now).unwrap_or(true);
                // without a robot answer the call may wait; without states it must notice
                let mv_started = mr.map(|m| m.rejected.is_none() && m.end.is_none()).unwrap_or(false);
                if lost || answered || (states && mv_started && stops == 0) {
                    tags.push("C14");
                    self.bad(&tags, format!("{}: never returned", what));
                }
                return;
            }
            Outcome::Ok(_) => {
                if invalid {
                    self.bad(&["C08"], format!("{}: succeeded although a callback returned an invalid value", what));
                }
                let fin = mr.map(|m| matches!(m.final_resp, Some((_, MS_SUCCESS)))).unwrap_or(false);
                let delivered = mr.map(|m| self.resps_of(conn, m.req_id).any(|x| x.payload[0] == MS_SUCCESS && x.s_full < r.s1)).unwrap_or(false);
                if !fin || !delivered {
                    self.bad(&tags, format!("{}: succeeded without the robot having confirmed the end of the motion", what));
                }
                if fin_cb == Some(false) {
                    self.bad(&tags, format!("{}: succeeded although no callback asked to finish", what));
                }
                if stops > 0 {
                    self.bad(&["C13", "C10"], format!("{}: a stop request was sent for a motion that succeeded", what));
                }
                if loss.map(|l| l.1 < r.s0).unwrap_or(false) {
                    self.bad(&["C14"], format!("{}: succeeded on a connection that was already lost", what));
                }
                return;
            }
            _ => {}
        }
        // the call returns only when the robot that accepted the stop has reported that it stands
        if let (Some(m), false) = (mr, lost_in || gap >= 990 * MS || self.runts(conn, r.s1)) {
            let stopped = reqs.iter().any(|q| q.req.cmd == RC_STOP && self.resps_of(conn, q.req.id).any(|x| x.payload[0] == 0 && x.s_full < r.s1));
            let last = self.cbs_of(r).map(|b| id_of(&b.view)).max();
            let stands = last.map(|id| arr.iter().any(|a| !a.runt && a.queued && a.s < r.s1 && a.id > id && !h.state(s.srv, a.id).map(moving).unwrap_or(true))).unwrap_or(true);
            if stopped && m.rejected.is_none() && !stands {
                self.bad(&["C10", "C21"], format!("{}: the robot accepted the stop request, the call returned before the robot reported that it stands", what));
            }
        }
        // giving up a motion the robot may still be executing: ask it to stop, if it can be asked
        if net && cbs > 0 && stops == 0 && !lost_in && !self.trouble_on_link(s.srv) && mr.map(|m| m.rejected.is_none()).unwrap_or(false) {
            self.bad(&["C14", "C10"], format!("{}: the motion was given up ({}) without asking the robot to stop", what, text));
        }
        if invalid {
            return; // any error will do
        }
        if !control && !net && !matches!(r.out, Outcome::Err(ErrK::Command, _)) {
            self.bad(&tags, format!("{}: unexpected {}", what, r.out.short()));
            return;
        }
        if net && !trouble {
            tags.push("C14");
            self.bad(&tags, format!("{}: network exception ({}) although nothing was lost (longest gap {} ms)", what, text, gap / MS));
            return;
        }
        if let Some((t, sq)) = loss {
            if sq < r.s1 && r.t1 > t.max(r.t0) + 25 * UNIT + self.slack + self.cb_time(r) {
                self.bad(&["C14"], format!("{}: returned only {} ms after the connection was lost", what, (r.t1 - t.max(r.t0)) / MS));
            }
        }
        let Some(mr) = mr else {
            if control && moves.is_empty() {
                let m0 = arr.iter().filter(|a| !a.runt && a.queued && a.s < r.s0).map(|a| a.id).max().unwrap_or(0);
                let ok = arr.iter().any(|a| !a.runt && a.queued && a.s < r.s1 && a.id >= m0 && h.state(s.srv, a.id).map(moving).unwrap_or(false));
                if !ok && !self.runts(conn, r.s1) {
                    self.bad(&["C21", "C10"], format!("{}: refused ({}) although the robot is not moving", what, text));
                }
            } else if !trouble {
                self.bad(&tags, format!("{}: gave {} although the robot received no motion request", what, r.out.short()));
            }
            return;
        };
        if let Some(st) = mr.rejected {
            let good = matches!(r.out, Outcome::Err(ErrK::Command, _)) && has(&text, move_keyword(st));
            if !good && !(trouble && (net || control)) {
                self.bad(&["C10"], format!("{}: the robot rejected the motion (status {}), the call gave {}", what, st, r.out.short()));
            }
            if cbs > 0 {
                self.bad(&["C10"], format!("{}: {} callbacks ran for a rejected motion", what, cbs));
            }
            if stops > 0 && !trouble {
                self.bad(&["C13"], format!("{}: a stop request was sent for a rejected motion", what));
            }
            return;
        }
        if matches!(r.out, Outcome::Err(ErrK::Command, _)) {
            self.bad(&tags, format!("{}: command exception ({}) although the robot accepted the motion", what, text));
            return;
        }
        if trouble {
            return;
        }
        // an abort can be answered before the state that shows it
        let t_stop = reqs.iter().filter(|q| q.req.cmd == RC_STOP).map(|q| q.t).min().unwrap_or(u64::MAX);
        let early = mr.final_resp.filter(|(t, st)| *st != MS_SUCCESS && *t <= t_stop).map(|(t, st)| MotionEnd { t, id: u64::MAX, kind: EndKind::Abort, status: st, reflex: u64::MAX });
        let shown = mr.end.clone().filter(|e| early.is_none() || !matches!(e.kind, EndKind::Stop | EndKind::Disconnect));
        let Some(e) = &shown.or(early) else {
            self.bad(&tags, format!("{}: gave {} although the motion is not over", what, r.out.short()));
            return;
        };
        // the robot ended the motion (kinds Stop and Disconnect follow from an earlier failure)
        match e.kind {
            EndKind::Stop | EndKind::Disconnect => {
                self.bad(&tags, format!("{}: gave {} although the robot neither rejected nor aborted the motion", what, r.out.short()));
            }
            EndKind::Finish if e.status == MS_SUCCESS => {
                self.bad(&["C09"], format!("{}: the robot confirmed the end of the motion, the call gave {}", what, r.out.short()));
            }
            _ => {
                let kw = move_keyword(e.status);
                let alt = e.status == MS_REFLEX && has(&text, "still moving");
                if !control || !(has(&text, kw) || alt) {
                    self.bad(&["C10"], format!("{}: the robot ended the motion with status {} ({}), the call gave {}", what, e.status, kw, r.out.short()));
                }
                if e.status == MS_REFLEX && e.reflex != u64::MAX && cbs > 0 {
                    let nt = norm_txt(&text);
                    for k in 0..41 {
                        let name = ERROR_NAMES[k].to_lowercase();
                        let on = e.reflex >> k & 1 == 1;
                        let covered = (0..41).any(|j| j != k && e.reflex >> j & 1 == 1 && ERROR_NAMES[j].to_lowercase().contains(&name));
                        if on && !nt.contains(&name) {
                            self.bad(&["C10"], format!("{}: the reflex reason {} is missing from: {}", what, ERROR_NAMES[k], text));
                        }
                        if !on && nt.contains(&name) && !covered {
                            self.bad(&["C10"], format!("{}: the robot did not report the reflex reason {}: {}", what, ERROR_NAMES[k], text));
                        }
                    }
                }
                if cbs > 0 && stops == 0 {
                    self.bad(&["C10"], format!("{}: no stop request was sent for the aborted motion", what));
                }
            }
        }
        // bounded time after the last thing the call may wait for
        let mut t = e.t;
        for x in h.resps.iter().filter(|x| x.conn == conn && x.s_full < r.s1) {
            t = t.max(x.t_full.unwrap());
        }
        if let Some(a) = arr.iter().find(|a| !a.runt && a.queued && a.id >= e.id && !h.state(s.srv, a.id).map(moving).unwrap_or(false)) {
            t = t.max(a.t);
        }
        let cb_end = self.cbs_of(r).map(|b| b.t1).max().unwrap_or(0);
        t = t.max(cb_end);
        let _ = script_stop;
        // after a successful stop the call waits for one further state
        if r.t1 > t + gap + UNIT + self.slack {
            self.bad(&["C10", "C09"], format!("{}: returned {} ms after everything it could wait for", what, (r.t1 - t) / MS));
        }
    }
    /// While the robot shows the motion running, every state that arrives is answered soon.
    fn served(&mut self, r: &OpRec, s: &Sess, what: &str, m: &MotionRec, arr: &[&ArrRec]) {
        let h = self.i.h;
        let Some((_, run_id)) = m.run else { return };
        let Some(acc) = self.resps_of(s.conn, m.req_id).filter(|x| x.payload[0] == MS_STARTED).filter_map(|x| x.t_full).min() else { return };
        let mut until = if matches!(r.out, Outcome::Hang) { self.i.now } else { r.t1 };
        // the end of the motion is known from here on
        for x in self.resps_of(s.conn, m.req_id).filter(|x| x.payload[0] != MS_STARTED) {
            until = until.min(x.t_sent);
        }
        if let Some(q) = self.reqs_of(r).filter(|q| q.req.cmd == RC_STOP).map(|q| q.t).min() {
            until = until.min(q);
        }
        let running = |id: u64| h.state(s.srv, id).map(|x| x.mg == m.mg && x.cm == m.cm && x.mode == RM_MOVE).unwrap_or(false);
        if let Some(a) = arr.iter().find(|a| a.runt && a.s > r.s0 || a.id >= run_id && !running(a.id)) {
            until = until.min(a.t);
        }
        // from here on the call has given up
        if let Some((t, _)) = h.senderr.iter().find(|(t, c)| *c == r.client && *t >= r.t0) {
            until = until.min(*t);
        }
        if let Some((t, _)) = self.loss(s.conn) {
            until = until.min(t);
        }
        let mut last = r.t0;
        for a in arr.iter().filter(|a| a.t > r.t0) {
            if a.t - last >= 990 * MS {
                until = until.min(last);
            }
            last = a.t;
        }
        let d = 5 * MS + 100 * self.i.plan.cfg.cost_max + self.slack + self.cb_time(r);
        let cmds: Vec<(u64, u64)> = self.cmds_of(r).filter_map(|c| c.cmd.as_ref().map(|w| (c.t, w.id))).collect();
        // the first of these states only tells that the motion runs, the next one is the first to answer
        let Some(first) = arr.iter().find(|a| a.id >= run_id && !a.runt && a.queued).map(|a| (a.id, a.t.max(acc) + d)) else { return };
        let mut newest = first.0;
        let (mut done, mut answered) = (0, 0);
        for a in arr.iter().filter(|a| !a.runt && a.queued) {
            if a.id <= newest {
                continue;
            }
            newest = a.id;
            if a.t <= first.1 {
                continue;
            }
            let dl = a.t + d;
            if dl >= until {
                break;
            }
            while done < cmds.len() && cmds[done].0 <= dl {
                answered = answered.max(cmds[done].1);
                done += 1;
            }
            if answered < a.id {
                self.bad(&["C04", "C09"], format!("{}: state {} shows the motion running and was not answered within {} ms", what, a.id, d / MS));
                return;
            }
        }
    }
    fn cb_time(&self, r: &OpRec) -> u64 {
        self.cbs_of(r).map(|b| b.t1 - b.t0).sum()
    }
    fn last_delivery(&self, client: usize, conn: usize, before: u64) -> Option<u64> {
        let h = self.i.h;
        let a = h.cbs.iter().filter(|b| b.client == client && b.conn == conn && b.s1 < before).map(|b| (b.s1, id_of(&b.view)));
        let b = h.ops.iter().filter(|r| r.client == client && r.conn == Some(conn) && r.s1 < before).filter_map(|r| match &r.out {
            Outcome::Ok(Val::State(v)) => Some((r.s1, id_of(v))),
            _ => None,
        });
        a.chain(b).max().map(|x| x.1)
    }
    fn log_check(&mut self, r: &OpRec, s: &Sess, what: &str, cmds: &[&CmdRec]) {
        let Outcome::Err(ErrK::Control { log }, text) = &r.out else { return };
        let t = ["C11"];
        let sent: Vec<&WireCmd> = cmds.iter().filter(|c| !c.failed).filter_map(|c| c.cmd.as_ref()).collect();
        let Some(rows) = log else {
            if !sent.is_empty() {
                self.bad(&t, format!("{}: no log although {} commands were sent", what, sent.len()));
            }
            return;
        };
        let n = sent.len().min(s.log_size);
        if rows.len() != n {
            self.bad(&t, format!("{}: the log has {} rows, {} commands were sent and {} are to be kept", what, rows.len(), sent.len(), s.log_size));
            return;
        }
        let arr = self.arrivals(s.conn);
        for k in 0..n {
            let j = sent.len() - n + k;
            let (v, row) = &rows[k];
            let c = sent[j];
            let same = bits(&row.q, &c.q).is_none() && bits(&row.dq, &c.dq).is_none() && bits(&row.pose, &c.pose).is_none() && bits(&row.twist, &c.twist).is_none() && bits(&row.tau, &c.tau).is_none();
            if !same {
                let at = (0..sent.len()).find(|j| bits(&row.q, &sent[*j].q).is_none() && bits(&row.dq, &sent[*j].dq).is_none() && bits(&row.pose, &sent[*j].pose).is_none() && bits(&row.twist, &sent[*j].twist).is_none() && bits(&row.tau, &sent[*j].tau).is_none());
                self.bad(&t, format!("{}: row {} of {} of the log is not command {} of {} ({})", what, k, n, j, sent.len(), at.map(|a| format!("it is command {}", a)).unwrap_or("it is no command of this motion".into())));
                return;
            }
            let id = id_of(v);
            if j + 1 < sent.len() {
                if id != sent[j + 1].id {
                    self.bad(&t, format!("{}: row {} of {} of the log pairs the command answering state {} with state {}, the next one received is {}", what, k, n, c.id, id, sent[j + 1].id));
                    return;
                }
            } else if id <= c.id || !arr.iter().any(|a| !a.runt && a.id == id && a.s < r.s1) {
                self.bad(&t, format!("{}: the last row of the log pairs the command answering state {} with state {}", what, c.id, id));
                return;
            }
            let v = v.clone();
            self.view_ok(&v, s.srv, &format!("{} log row {}", what, k), &["C11"]);
        }
        // what the message of a reflex says about lost packets
        if n >= 2 && matches!(log_status(self.i.h, r, s.conn), Some(MS_REFLEX)) {
            let (x, y) = (&rows[n - 2].0, &rows[n - 1].0);
            let lost = (id_of(y) - id_of(x)).saturating_sub(1);
            let want = x.rate * (1. - lost as f64 / 100.);
            if let Some(g) = number_after(text, "success_rate:") {
                if !((g - want).abs() <= 1e-9 * want.abs().max(1.)) {
                    self.bad(&["C10", "C11"], format!("{}: success rate {} in the message, {} follows from the log", what, g, want));
                }
            }
            let g = number_after(text, "last sample:");
            if text.contains("success_rate:") && g.unwrap_or(0.) != lost as f64 {
                self.bad(&["C10", "C11"], format!("{}: {:?} lost packets in the message, {} follow from the log", what, g, lost));
            }
        }
    }
    fn running(&self, srv: usize, id: u64, mg: u8, cm: u8) -> bool {
        self.i.h.state(srv, id).map(|s| s.mg == mg && s.cm == cm && s.mode == RM_MOVE).unwrap_or(false)
    }
    fn motion(&mut self, r: &OpRec, s: &Sess, m: &MotionOp, rt: &RtCfg) {
        let h = self.i.h;
        let what = format!("client {} operation {} ({}{:?} motion)", r.client, r.op, if m.pure_torque { "torque " } else if m.torque { "torque and " } else { "" }, if m.pure_torque { MK::JV } else { m.kind });
        let fc = m.cutoff.unwrap_or(100.);
        let limit = m.limit.unwrap_or(true);
        let dual = m.torque || m.pure_torque;
        let kind = if m.pure_torque { MK::JV } else { m.kind };
        let mg = match kind {
            MK::JP => 1,
            MK::JV => 2,
            MK::CP => 3,
            MK::CV => 4,
        };
        let cm = if dual { CM_EXTERNAL } else { m.ctrl.unwrap_or(0) };
        if matches!(r.out, Outcome::Skipped) {
            return;
        }
        let cbs: Vec<&CbRec> = self.cbs_of(r).collect();
        let cmds: Vec<&CmdRec> = self.cmds_of(r).collect();
        let harmless = |b: &CbRec| b.kind == CbKind::Motion && kind == MK::CP && m.invalid.as_ref().map(|i| i.kind == 3).unwrap_or(false) && fc < 1000.;
        let invalid = cbs.iter().any(|b| b.invalid && !harmless(b));
        let fin_cb = cbs.iter().any(|b| b.fin);
        if self.rt_check(r, s, rt, &what) {
            if !cbs.is_empty() {
                self.bad(&["C20"], format!("{}: callbacks ran without real-time rights", what));
            }
            return;
        }
        self.motion_outcome(r, s, &what, cm, mg, invalid, Some(fin_cb), cbs.len(), Some(&m.script.stop));
        self.log_check(r, s, &what, &cmds);
        // cycles
        struct Cy<'b> {
            cbs: Vec<&'b CbRec>,
            cmds: Vec<&'b CmdRec>,
        }
        let mut cy: Vec<Cy> = vec![];
        let mut ev: Vec<(u64, usize, bool)> = cbs.iter().enumerate().map(|(i, b)| (b.s1, i, true)).chain(cmds.iter().enumerate().map(|(i, c)| (c.s, i, false))).collect();
        ev.sort_unstable();
        for (_, i, cb) in ev {
            if cb {
                let join = cy.last().map(|c| c.cmds.is_empty() && id_of(&c.cbs[0].view) == id_of(&cbs[i].view) && dual && c.cbs.len() < 2).unwrap_or(false);
                if join {
                    cy.last_mut().unwrap().cbs.push(cbs[i]);
                } else {
                    cy.push(Cy { cbs: vec![cbs[i]], cmds: vec![] });
                }
            } else if let Some(c) = cy.last_mut() {
                c.cmds.push(cmds[i]);
            } else {
                self.bad(&["C04"], format!("{}: a command was sent before any callback ran", what));
                return;
            }
        }
        let mut prev: Option<u64> = None;
        let mut tau_prev = [0.; 7];
        // so far every command was in force in the very next state
        let (mut clean, mut before): (bool, Option<&WireCmd>) = (true, None);
        let ncy = cy.len();
        let mut finished = false;
        for (k, c) in cy.iter().enumerate() {
            let id = id_of(&c.cbs[0].view);
            let mb = c.cbs.iter().find(|b| b.kind == CbKind::Motion);
            let tb = c.cbs.iter().find(|b| b.kind == CbKind::Torque);
            let fin = c.cbs.iter().any(|b| b.fin);
            let inv = c.cbs.iter().any(|b| b.invalid && !harmless(b));
            let soft = c.cbs.iter().any(|b| b.invalid && harmless(b));
            if finished {
                self.bad(&["C04", "C09"], format!("{}: a callback ran after one had asked to finish", what));
                return;
            }
            finished = fin;
            // C05
            let want = prev.map(|p| (id.saturating_sub(p)) as u128 * 1_000_000).unwrap_or(0);
            for b in &c.cbs {
                if b.dt_ns != Some(want) {
                    self.bad(&["C05"], format!("{}: cycle {} (state {}, previous {:?}): the callback was told {:?} ns, should be {}", what, k, id, prev, b.dt_ns, want));
                }
            }
            prev = Some(id);
            if !self.running(s.srv, id, mg, cm) {
                self.bad(&["C10", "C04"], format!("{}: a callback ran on state {} which does not show the motion running", what, id));
            }
            // which callbacks make a cycle
            let last = k + 1 == ncy;
            if !m.pure_torque && mb.is_none() && !(last && inv) {
                self.bad(&["C04"], format!("{}: cycle {} ran without the motion callback", what, k));
            }
            if dual && tb.is_none() && !fin && !inv && !(last && matches!(r.out, Outcome::Panic(_) | Outcome::Hang)) {
                self.bad(&["C04", "C05"], format!("{}: cycle {} ran without the torque callback", what, k));
            }
            if inv {
                if let Some(x) = c.cmds.first() {
                    self.bad(&["C08"], format!("{}: a command (state {}) was sent in the cycle whose callback returned an invalid value", what, x.cmd.as_ref().map(|c| c.id).unwrap_or(0)));
                }
                if !last {
                    self.bad(&["C08"], format!("{}: the motion went on after a callback returned an invalid value", what));
                }
                return;
            }
            // C04 counts
            let n = c.cmds.iter().filter(|x| !x.failed).count();
            // a command the operating system refused to send has to end the motion
            let refused = last && n < c.cmds.len() && matches!(r.out, Outcome::Err(..));
            if n == 0 && !refused && !matches!(r.out, Outcome::Crashed | Outcome::Panic(_)) && !(last && matches!(r.out, Outcome::Hang)) {
                let mut t = vec!["C04"];
                if fin {
                    t.push("C09");
                }
                self.bad(&t, format!("{}: cycle {} (state {}) sent no command", what, k, id));
            }
            if !fin && n > 1 {
                self.bad(&["C04"], format!("{}: cycle {} (state {}) sent {} commands", what, k, id, n));
            }
            let mut pid = 0;
            for (j, x) in c.cmds.iter().filter(|x| !x.failed || n == 0).enumerate() {
                let Some(w) = &x.cmd else { continue };
                if j == 0 && w.id != id {
                    self.bad(&["C04"], format!("{}: cycle {} was given state {}, its command answers state {}", what, k, id, w.id));
                }
                if j > 0 && w.id <= pid {
                    self.bad(&["C04", "C09"], format!("{}: the end of the motion was announced for state {} after state {}", what, w.id, pid));
                }
                pid = w.id;
                if (w.finished != 0) != fin {
                    self.bad(&["C04", "C09"], format!("{}: cycle {} {}, its command {}", what, k, if fin { "finishes" } else { "does not finish" }, if fin { "does not announce it" } else { "announces the end" }));
                }
                // (the end is announced for as long as any part of the robot moves)
                if !self.running(s.srv, w.id, mg, cm) && !(j > 0 && fin && h.state(s.srv, w.id).map(moving).unwrap_or(false)) {
                    self.bad(&["C04"], format!("{}: a command answers state {} which does not show the motion running", what, w.id));
                }
                self.cmd_valid(&what, w);
                if j > 0 {
                    let f = c.cmds[0].cmd.as_ref().unwrap();
                    let same = bits(&w.q, &f.q).is_none() && bits(&w.dq, &f.dq).is_none() && bits(&w.pose, &f.pose).is_none() && bits(&w.twist, &f.twist).is_none() && bits(&w.tau, &f.tau).is_none() && bits(&w.elbow, &f.elbow).is_none() && w.valid_elbow == f.valid_elbow;
                    if !same {
                        self.bad(&["C09", "C07"], format!("{}: repetition {} of the final command differs from it", what, j));
                    }
                }
            }
            let (Some(x), Some(st)) = (c.cmds.first(), h.state(s.srv, id)) else { continue };
            let Some(w) = &x.cmd else { continue };
            self.shape(&what, k, w, st, kind, dual, mb.copied(), tb.copied(), m.pure_torque, limit, fc, &mut tau_prev, soft);
            if limit {
                clean = clean && landed(st, before, kind);
                before = Some(w);
                self.limits(&what, k, w, st, kind, dual && tb.is_some(), mb.map(|b| !b.invalid).unwrap_or(true), clean);
            }
        }
        // C09: the announcement is repeated on every new state
        if let Some(c) = cy.last().filter(|c| c.cbs.iter().any(|b| b.fin)) {
            let arr = self.arrivals(s.conn);
            let allow = 30 * MS + self.slack;
            let (ts, ss) = (c.cbs.last().unwrap().t1, c.cbs.last().unwrap().s1);
            let t_end = if matches!(r.out, Outcome::Hang) { self.i.now } else { r.t1 };
            let idle_t = arr.iter().find(|a| !a.runt && a.queued && !h.state(s.srv, a.id).map(moving).unwrap_or(false) && a.id > id_of(&c.cbs[0].view)).map(|a| a.t).unwrap_or(u64::MAX);
            let loss_t = self.loss(s.conn).map(|l| l.0).unwrap_or(u64::MAX);
            let runt_t = arr.iter().find(|a| a.runt).map(|a| a.t).unwrap_or(u64::MAX);
            let serr = c.cmds.iter().find(|c| c.failed).map(|c| c.t).unwrap_or(u64::MAX);
            for a in arr.iter().filter(|a| !a.runt && a.queued && a.s > ss && h.state(s.srv, a.id).map(moving).unwrap_or(false)) {
                if a.t + allow > t_end.min(idle_t).min(loss_t).min(runt_t).min(serr) {
                    break;
                }
                // a gap long enough for the timeout before this state excuses it
                if self.gap(s.conn, ts, a.t) >= 900 * MS {
                    break;
                }
                let answered = c.cmds.iter().any(|x| x.cmd.as_ref().map(|w| w.id >= a.id).unwrap_or(false) && x.t <= a.t + allow);
                if !answered {
                    self.bad(&["C09"], format!("{}: state {} arrived while the motion was still running, the end of the motion was not announced again", what, a.id));
                    break;
                }
            }
        }
    }
    fn cmd_valid(&mut self, what: &str, w: &WireCmd) {
        let t = ["C08"];
        let all = w.q.iter().chain(&w.dq).chain(&w.pose).chain(&w.twist).chain(&w.elbow).chain(&w.tau).all(|x| x.is_finite());
        if !all {
            self.bad(&t, format!("{}: the command for state {} holds a number that is not finite", what, w.id));
        }
        if !zero(&w.pose) {
            let p = &w.pose;
            let mut ok = p[3] == 0. && p[7] == 0. && p[11] == 0. && p[15] == 1.;
            let m = rot_of(p);
            for i in 0..3 {
                let rn = (m[i][0].powi(2) + m[i][1].powi(2) + m[i][2].powi(2)).sqrt();
                let cn = (m[0][i].powi(2) + m[1][i].powi(2) + m[2][i].powi(2)).sqrt();
                ok &= (rn - 1.).abs() <= 2e-5 && (cn - 1.).abs() <= 2e-5;
            }
            let c = [m[1][1] * m[2][2] - m[1][2] * m[2][1], m[1][2] * m[2][0] - m[1][0] * m[2][2], m[1][0] * m[2][1] - m[1][1] * m[2][0]];
            ok &= (dot(&m[0], &c) - 1.).abs() < 2e-4;
            if !ok {
                self.bad(&t, format!("{}: the pose in the command for state {} is not a homogeneous transformation", what, w.id));
            }
        }
        if w.valid_elbow != 0 && w.elbow[1].abs() != 1. {
            self.bad(&t, format!("{}: the elbow sign in the command for state {} is {}", what, w.id, w.elbow[1]));
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn shape(&mut self, what: &str, k: usize, w: &WireCmd, st: &WireState, kind: MK, dual: bool, mb: Option<&CbRec>, tb: Option<&CbRec>, pure: bool, limit: bool, fc: f64, tau_prev: &mut [f64; 7], soft: bool) {
        let exact = !limit && fc >= 1000.;
        let t = ["C07"];
        let cmp = |me: &mut Self, name: &str, got: &[f64], want: &[f64], tol: f64| {
            for i in 0..got.len() {
                let ok = if exact { got[i].to_bits() == want[i].to_bits() } else { close(got[i], want[i], tol) };
                if !ok {
                    me.bad(&t, format!("{}: cycle {} (state {}): {}[{}] on the wire is {:e}, should be {:e} (limit {}, cutoff {})", what, k, w.id, name, i, got[i], want[i], limit, fc));
                    return;
                }
            }
        };
        let (mut q, mut dq, mut pose, mut twist, mut el, mut ve) = ([0.; 7], [0.; 7], [0.; 16], [0.; 6], [0.; 2], 0u8);
        if pure {
            // the pure torque interface holds still with zero velocities
            dq = rm::dq(st, &[0.; 7], limit, fc);
        }
        if let Some(b) = mb {
            match &b.out {
                CbOut::Q(o) => q = rm::q(st, o, limit, fc),
                CbOut::Dq(o) => dq = rm::dq(st, o, limit, fc),
                CbOut::Pose(o, e) => {
                    pose = rm::pose(st, o, limit, fc);
                    if let Some(e) = e {
                        el = rm::elbow(st, e, limit, fc);
                        ve = 1;
                    }
                }
                CbOut::Twist(o, e) => {
                    twist = rm::twist(st, o, limit, fc);
                    if let Some(e) = e {
                        el = rm::elbow(st, e, limit, fc);
                        ve = 1;
                    }
                }
                _ => {}
            }
        }
        let tol = 1e-9;
        cmp(self, "joint position", &w.q, &q, tol);
        cmp(self, "joint velocity", &w.dq, &dq, tol);
        cmp(self, "twist", &w.twist, &twist, tol);
        if !soft {
            if !exact && kind == MK::CP {
                for i in 0..16 {
                    let d = (w.pose[i] - pose[i]).abs();
                    if d > TOLSTAT.with(|t| t.get()) {
                        TOLSTAT.with(|t| t.set(d));
                    }
                }
            }
            let v0 = st.arr::<6>(O_DP_EE_C);
            // far beyond the limits the limiter works with differences of huge numbers
            let wild = limit && v0.iter().any(|x| x.abs() > 100.);
            // half a turn away there are two shortest ways
            let turn = match mb.map(|b| &b.out) {
                Some(CbOut::Pose(o, _)) if !exact => norm(&rot_log(&mul(&rot_of(o), &tr(&rot_of(&st.arr::<16>(O_T_EE_C)))))) > 3.13,
                _ => false,
            };
            let tol = if wild || turn { f64::INFINITY } else { 2e-7 };
            cmp(self, "pose", &w.pose, &pose, if kind == MK::CP { tol } else { 0. });
        }
        if w.valid_elbow != ve {
            self.bad(&t, format!("{}: cycle {} (state {}): the elbow is sent as {}, the user {} one", what, k, w.id, if w.valid_elbow != 0 { "valid" } else { "invalid" }, if ve != 0 { "gave" } else { "did not give" }));
        } else {
            cmp(self, "elbow", &w.elbow, &el, tol);
        }
        let mut tau = if dual { *tau_prev } else { [0.; 7] };
        if let (true, Some(b)) = (dual, tb) {
            if let CbOut::Tau(o) = &b.out {
                tau = rm::tau(st, o, limit, fc);
            }
        }
        cmp(self, "torque", &w.tau, &tau, tol);
        *tau_prev = w.tau;
    }
    /// published limits relative to the robot's last commanded values
    #[allow(clippy::too_many_arguments)]
    fn limits(&mut self, what: &str, k: usize, w: &WireCmd, st: &WireState, kind: MK, dual: bool, motion: bool, clean: bool) {
        let t = ["C06"];
        let dt = 1e-3;
        let one = |me: &mut Self, name: String, p0: f64, v: f64, v0: f64, a0: f64, l: [f64; 3]| {
            // what a difference of two positions of this size can resolve
            let ulp = p0.abs() * 1e-15 / dt;
            let a = (v - v0) / dt;
            let j = (a - a0) / dt;
            // late commands can make the robot itself report more than its limit
            if v0.abs() > 0.989 * l[0] && !clean {
                if !(v.abs() <= v0.abs().max(l[0]) + 1e-9 + ulp) {
                    me.bad(&t, format!("{}: cycle {} (state {}): {} moves at {:.6} after {:.6}, the limit is {}", what, k, w.id, name, v, v0, l[0]));
                }
                return;
            }
            if v.abs() > l[0] + 1e-9 + ulp || v.is_nan() {
                me.bad(&t, format!("{}: cycle {} (state {}): {} moves at {:.6}, the limit is {}", what, k, w.id, name, v, l[0]));
            } else if a.abs() > l[1] + 1e-6 + ulp / dt {
                me.bad(&t, format!("{}: cycle {} (state {}): {} accelerates by {:.6}, the limit is {}", what, k, w.id, name, a, l[1]));
            } else if j.abs() > l[2] + 1e-2 + ulp / dt / dt {
                // close to the velocity limit braking comes first
                let head = (l[2] / l[1]) * (l[0] - v0.abs()) - 1.;
                if a0.abs() <= head && a0.abs() <= l[1] - 0.02 {
                    me.bad(&t, format!("{}: cycle {} (state {}): {} jerks by {:.3}, the limit is {}", what, k, w.id, name, j, l[2]));
                }
            }
        };
        if motion {
            match kind {
                MK::JP => {
                    for i in 0..7 {
                        one(self, format!("joint {}", i + 1), st.f[Q_D + i], (w.q[i] - st.f[Q_D + i]) / dt, st.f[DQ_D + i], st.f[DDQ_D + i], [rm::J_VEL[i], rm::J_ACC[i], rm::J_JERK[i]]);
                    }
                }
                MK::JV => {
                    for i in 0..7 {
                        one(self, format!("joint {}", i + 1), 0., w.dq[i], st.f[DQ_D + i], st.f[DDQ_D + i], [rm::J_VEL[i], rm::J_ACC[i], rm::J_JERK[i]]);
                    }
                }
                _ => {
                    let (v0, a0) = (st.arr::<6>(O_DP_EE_C), st.arr::<6>(O_DDP_EE_C));
                    let tw = if kind == MK::CV {
                        w.twist
                    } else {
                        let last = st.arr::<16>(O_T_EE_C);
                        let d = scale(&sub(&trans_of(&w.pose), &trans_of(&last)), 1. / dt);
                        let r = scale(&rot_log(&mul(&rot_of(&w.pose), &tr(&rot_of(&last)))), 1. / dt);
                        [d[0], d[1], d[2], r[0], r[1], r[2]]
                    };
                    for (off, name, l) in [(0, "the end effector", rm::T_LIM), (3, "the end effector rotation", rm::R_LIM)] {
                        let g = |a: &[f64; 6]| [a[off], a[off + 1], a[off + 2]];
                        let (v, v0, a0) = (g(&tw), g(&v0), g(&a0));
                        let ulp = if kind == MK::CV { 0. } else if off == 0 { norm(&trans_of(&st.arr::<16>(O_T_EE_C))) * 2e-15 / dt } else { 1e-12 / dt };
                        let a = scale(&sub(&v, &v0), 1. / dt);
                        let j = scale(&sub(&a, &a0), 1. / dt);
                        if norm(&v0) > 0.989 * l[0] && !clean {
                            continue;
                        }
                        if !(norm(&v) <= l[0] + ulp) {
                            self.bad(&t, format!("{}: cycle {} (state {}): {} moves at {:.6}, the limit is {}", what, k, w.id, name, norm(&v), l[0]));
                        } else if norm(&a) > l[1] + ulp / dt {
                            self.bad(&t, format!("{}: cycle {} (state {}): {} accelerates by {:.6}, the limit is {}", what, k, w.id, name, norm(&a), l[1]));
                        } else if norm(&j) > l[2] + 1e-2 + ulp / dt / dt {
                            let head = (l[2] / l[1]) * (l[0] - norm(&v0)) - 1.;
                            if norm(&a0) + l[2] * dt <= head && norm(&a0) + l[2] * dt <= l[1] - 0.02 {
                                self.bad(&t, format!("{}: cycle {} (state {}): {} jerks by {:.3}, the limit is {}", what, k, w.id, name, norm(&j), l[2]));
                            }
                        }
                    }
                    if w.valid_elbow != 0 {
                        one(self, "the elbow".into(), st.f[ELBOW_C], (w.elbow[0] - st.f[ELBOW_C]) / dt, st.f[DELBOW_C], st.f[DDELBOW_C], rm::E_LIM);
                    }
                }
            }
        }
        if dual {
            for i in 0..7 {
                let rate = (w.tau[i] - st.f[TAU_J_D + i]) / dt;
                if rate.abs() > rm::TAU_RATE + 1e-6 {
                    self.bad(&t, format!("{}: cycle {} (state {}): torque {} changes by {:.3} per second, the limit is {}", what, k, w.id, i + 1, rate, rm::TAU_RATE));
                }
            }
        }
    }
    /// was every command of the motion in force in the very next robot state?
    fn undisturbed(&self, srv: usize, cmds: &[&CmdRec]) -> bool {
        let h = self.i.h;
        let mut pid = 0;
        for x in cmds {
            let Some(w) = &x.cmd else { return false };
            if pid == 0 {
                if let Some(st) = h.state(srv, w.id) {
                    if st.f[DQ_D..DQ_D + 7].iter().chain(&st.f[DDQ_D..DDQ_D + 7]).any(|v| *v != 0.) {
                        return false;
                    }
                }
            } else if w.id != pid + 1 {
                return false;
            }
            pid = w.id;
            match h.state(srv, w.id + 1) {
                Some(n) if n.arr::<7>(Q_D) == w.q => {}
                Some(_) if !self.running(srv, w.id + 1, 1, CM_JOINT_IMP) => {}
                _ => return false,
            }
        }
        true
    }
    fn joint_motion(&mut self, r: &OpRec, s: &Sess, speed: f64, goal: &[f64; 7], rt: &RtCfg) {
        let h = self.i.h;
        let what = format!("client {} operation {} (joint motion, speed {})", r.client, r.op, speed);
        let cmds: Vec<&CmdRec> = self.cmds_of(r).collect();
        if self.rt_check(r, s, rt, &what) {
            return;
        }
        self.extra.push("C23");
        self.motion_outcome(r, s, &what, CM_JOINT_IMP, 1, false, None, if cmds.is_empty() { 0 } else { 1 }, None);
        self.extra.pop();
        self.log_check(r, s, &what, &cmds);
        let mut pid = 0;
        let mut fin = false;
        // every command was in force in the very next robot state
        let clean = self.undisturbed(s.srv, &cmds);
        let mut id0 = 0;
        // moving by less than a milliradian takes so few cycles that the jerk limits count
        let fine = |q0: [f64; 7]| if (0..7).all(|i| (goal[i] - q0[i]).abs() < 1e-3) { 1e-5f64 } else { 0. };
        let mut start: Option<[f64; 7]> = None;
        let mut prev: Option<[f64; 7]> = None;
        for x in &cmds {
            let Some(w) = &x.cmd else { continue };
            if w.id <= pid {
                self.bad(&["C04"], format!("{}: state {} answered after state {}", what, w.id, pid));
            }
            pid = w.id;
            if fin && w.finished == 0 {
                self.bad(&["C04", "C09"], format!("{}: the end of the motion was announced and taken back", what));
            }
            if !self.running(s.srv, w.id, 1, CM_JOINT_IMP) && !(fin && h.state(s.srv, w.id).map(moving).unwrap_or(false)) {
                self.bad(&["C04"], format!("{}: a command answers state {} which does not show the motion running", what, w.id));
            }
            self.cmd_valid(&what, w);
            let Some(st) = h.state(s.srv, w.id) else { continue };
            if !zero(&w.dq) || !zero(&w.pose) || !zero(&w.twist) || !zero(&w.tau) || w.valid_elbow != 0 {
                self.bad(&["C07"], format!("{}: fields of other control modes are set", what));
            }
            if start.is_none() {
                id0 = w.id;
                start = Some(st.arr::<7>(Q_D));
            }
            if !(fin && w.finished != 0) {
                self.extra.push("C23");
                self.limits(&what, 0, w, st, MK::JP, false, true, clean);
                self.extra.pop();
            }
            let q0 = start.unwrap();
            // whatever was lost: the position asked for lies between start and goal, and at the
            // end it is the goal (both seen through the rate limiter)
            if !fin {
                let (a, b) = (rm::q(st, &q0, true, 1000.), rm::q(st, goal, true, 1000.));
                for i in 0..7 {
                    let e = 1e-9 * (1. + q0[i].abs());
                    let (lo, hi) = if w.finished != 0 { (b[i] - 2e-6, b[i] + 2e-6) } else { (a[i].min(b[i]) - e, a[i].max(b[i]) + e) };
                    if !(w.q[i] >= lo && w.q[i] <= hi) {
                        self.bad(&["C23"], if w.finished != 0 {
                            format!("{}: joint {} is asked to {} in the final cycle, the goal asks for {}", what, i + 1, w.q[i], b[i])
                        } else {
                            format!("{}: joint {} is asked to {} at state {}, outside of what start and goal ask for ({} to {})", what, i + 1, w.q[i], w.id, lo, hi)
                        });
                    }
                }
            }
            let fine = fine(q0);
            let bound = (0..7).map(|i| (goal[i] - q0[i]).abs()).fold(0., f64::max) / (2. * speed) * 1.2 + 2.;
            if w.finished == 0 && (w.id - id0) as f64 * 1e-3 > bound {
                self.bad(&["C23"], format!("{}: not at its goal after {} ms", what, w.id - id0));
                break;
            }
            if let (Some(p), true) = (prev, clean) {
                for i in 0..7 {
                    let dir = goal[i] - q0[i];
                    let step = w.q[i] - p[i];
                    let e = fine.max(1e-9 * (1. + q0[i].abs()));
                    if step * dir.signum() < -e && dir != 0. {
                        self.bad(&["C23"], format!("{}: joint {} moves away from its goal by {:e}", what, i + 1, step));
                    }
                    if (w.q[i] - goal[i]) * dir.signum() > e && dir.abs() > 1e-6 {
                        self.bad(&["C23"], format!("{}: joint {} overshoots its goal by {:e}", what, i + 1, w.q[i] - goal[i]));
                    }
                }
            }
            prev = Some(w.q);
            fin |= w.finished != 0;
        }
        let fine = start.map(fine).unwrap_or(0.);
        if matches!(r.out, Outcome::Ok(_)) && clean {
            match self.motions_of(r).next().and_then(|m| m.end.as_ref()) {
                Some(e) => {
                    if let Some(st) = h.state(s.srv, e.id) {
                        for i in 0..7 {
                            let d = (st.f[Q_D + i] - goal[i]).abs();
                            JMSTAT.with(|t| {
                                if d > t.get() {
                                    t.set(d)
                                }
                            });
                            if d > fine.max(2e-6) {
                                self.bad(&["C23"], format!("{}: succeeded with joint {} at {:.9}, the goal is {:.9}", what, i + 1, st.f[Q_D + i], goal[i]));
                            }
                        }
                    }
                }
                None => {}
            }
        }
    }
}
thread_local! {
    pub static TOLSTAT: std::cell::Cell<f64> = const { std::cell::Cell::new(0.) };
    pub static JMSTAT: std::cell::Cell<f64> = const { std::cell::Cell::new(0.) };
}
/// is this state the one right after the given command, with that command in force (or a start at rest)?
fn landed(st: &WireState, before: Option<&WireCmd>, kind: MK) -> bool {
    let Some(b) = before else {
        let z = |o: usize, n: usize| st.f[o..o + n].iter().all(|v| *v == 0.);
        return match kind {
            MK::JP | MK::JV => z(DQ_D, 7) && z(DDQ_D, 7),
            _ => z(O_DP_EE_C, 6) && z(O_DDP_EE_C, 6) && z(DELBOW_C, 1) && z(DDELBOW_C, 1),
        };
    };
    st.id == b.id + 1
        && match kind {
            MK::JP => st.arr::<7>(Q_D) == b.q,
            MK::JV => st.arr::<7>(DQ_D) == b.dq,
            MK::CV => st.arr::<6>(O_DP_EE_C) == b.twist,
            MK::CP => {
                let t = st.arr::<16>(O_T_EE_C);
                (0..16).all(|i| (t[i] - b.pose[i]).abs() <= 1e-9)
            }
        }
}
