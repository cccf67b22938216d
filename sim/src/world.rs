//! The simulated machine: virtual time, one seeded scheduler, sockets, links, faults.
use crate::hist::*;
use crate::plan::*;
use crate::rng::*;
use crate::robot::Srv;
use crate::wire::*;
use std::cell::{Cell, UnsafeCell};
use std::collections::{BinaryHeap, HashMap, VecDeque};
use std::sync::{Condvar, Mutex};

pub const FD_BASE: i32 = 1 << 20;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
pub const NFK: usize = ALL_FK.len();

// rng streams
pub const ST_COST: u64 = 1;
pub const ST_LAT: u64 = 2;
pub const ST_TCP: u64 = 3;
pub const ST_WAKE: u64 = 4;
pub const ST_MISC: u64 = 5;
pub const ST_FIELD: u64 = 50;
pub const ST_FAULT: u64 = 1000;

pub enum Ev {
    Start(usize),
    Wake(usize, u64),
    Intr(usize, u64),
    Spur(usize, u64),
    Tick(usize, u64),
    UdpToClient { udp: usize, bytes: Vec<u8>, srv: usize, id: u64, runt: bool, port: u16 },
    UdpToServer { srv: usize, client: usize, bytes: Vec<u8> },
    TcpToServer { conn: usize, bytes: Vec<u8> },
    TcpToClient { conn: usize, bytes: Vec<u8> },
    Flush(usize),
    FinToClient(usize),
    RstToClient(usize, i32),
    FinToServer(usize),
    ConnDone(usize, i32),
    Respond { conn: usize, cmd: u32, id: u32, payload: Vec<u8> },
    MoveResp { srv: usize, motion: usize, status: u8 },
    AbortResp { srv: usize, motion: usize },
    KeepDead(usize, u64),
    RtoDead(usize, u64),
    Timed(usize),
    LinkUp(usize, u64),
    SilenceEnd(usize, u64),
}
struct HeapItem {
    t: u64,
    n: u64,
    ev: Ev,
}
impl PartialEq for HeapItem {
    fn eq(&self, o: &Self) -> bool {
        self.t == o.t && self.n == o.n
    }
}
impl Eq for HeapItem {}
impl PartialOrd for HeapItem {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for HeapItem {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.t, o.n).cmp(&(self.t, self.n))
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SockRef {
    Tcp(usize),
    Udp(usize),
    Epoll(usize),
    File(usize),
    Null,
}
#[derive(Clone, Copy, Default)]
pub struct FdEnt {
    pub obj: Option<SockRef>,
    pub nonblock: bool,
    pub rcvtimeo: u64,
}
#[derive(Clone, Debug)]
pub enum Wait {
    None,
    Sleep,
    Epoll(usize),
    Read(SockRef),
    Connect(usize),
    Poll(Vec<(SockRef, i16)>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum WaitRes {
    Ready,
    Timeout,
    Intr,
    Spurious,
}
pub struct Cl {
    pub wait: Wait,
    pub token: u64,
    pub res: WaitRes,
    pub done: bool,
    pub started: bool,
    pub dead: bool,
    pub cur_op: Option<usize>,
    pub cur_cb_op: usize,
    pub op_t0: u64,
    pub op_s0: u64,
    pub conn: Option<usize>,
    pub ncalls: u64,
    pub nreq: u32,
    pub ncb: u32,
    pub rt: RtCfg,
    pub last_seen: Option<u64>, // id of the last state shown to the user
    pub errno_note: i32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CS {
    New,
    Connecting,
    Up,
    Failed,
}
pub struct Conn {
    pub client: usize,
    pub srv: usize,
    pub state: CS,
    pub so_error: i32,
    pub rx: VecDeque<u8>,
    pub fin: bool,
    pub err: Option<i32>,
    pub hup: bool,
    pub wr_shut: bool,
    pub closed: bool,
    pub refs: u32,
    pub nonblock: bool,
    pub keep: bool,
    pub keep_idle: u64,
    pub keep_intvl: u64,
    pub keep_cnt: u64,
    pub rx_seq: u64, // bumps on every change an edge-triggered watcher must see
    // stream bookkeeping
    pub srv_rx: Vec<u8>,
    pub sent_total: u64,
    pub recv_total: u64,
    pub last_to_client: u64,
    pub last_to_server: u64,
    pub hold: Vec<u8>,
    pub hold_until: u64,
    pub held_to_client: Vec<Vec<u8>>,
    /// stream bytes under way; segments take them in order whatever order they arrive in
    pub fly_c: std::collections::VecDeque<u8>,
    pub fly_s: std::collections::VecDeque<u8>,
    pub held_to_server: Vec<Vec<u8>>,
    pub resps: Vec<(u64, usize)>,
    pub srv_alive: bool,
    pub srv_dead_rst: bool, // data towards the server is answered by a reset
    pub cut: Option<(u32, bool)>,
    pub local_port: u16,
    pub handshaken: bool,
    pub udp: Option<usize>,
    pub unacked: bool,
    pub nreq: u32,
    pub sent_ops: VecDeque<(u64, usize)>,
    pub c2s_total: u64,
    pub srv_done: u64,
    pub nresp: u64,
    pub loss_seen: bool,
}
pub struct Udp {
    pub client: usize,
    pub port: u16,
    pub q: VecDeque<(Vec<u8>, [u8; 4], u16)>,
    pub refs: u32,
    pub closed: bool,
    pub rx_seq: u64,
    pub peer: Option<([u8; 4], u16)>,
    pub seen: VecDeque<(u64, u16)>, // the last datagrams read: message, port of the sender
}
pub struct Watch {
    pub obj: SockRef,
    pub fd: i32,
    pub events: u32,
    pub data: u64,
    pub seen: u64, // rx_seq already reported (edge triggered)
}
pub struct Ep {
    pub w: Vec<Watch>,
}
#[derive(Clone, Default)]
pub struct Inode {
    pub data: Vec<u8>,
}
pub struct OFile {
    pub ino: usize,
    pub path: String,
    pub pos: usize,
    pub append: bool,
    pub writable: bool,
    pub refs: u32,
}
#[derive(Default)]
pub struct Disk {
    pub dir: std::collections::BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    pub open: Vec<OFile>,
}
impl Disk {
    pub fn content(&self, p: &str) -> Option<&Vec<u8>> {
        self.dir.get(p).map(|i| &self.inodes[*i].data)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Running,
    AllDone,
    Deadline,
    StepCap,
    Harness(String),
}
pub struct World {
    pub plan: Plan,
    pub seed: u64,
    pub now: u64,
    pub wall_delta: i64,
    pub seq: u64,
    heap: BinaryHeap<HeapItem>,
    heap_n: u64,
    pub clients: Vec<Cl>,
    pub servers: Vec<Srv>,
    pub conns: Vec<Conn>,
    pub udps: Vec<Udp>,
    pub eps: Vec<Ep>,
    pub fds: Vec<FdEnt>,
    pub disk: Disk,
    pub blob: Vec<u8>,
    pub hist: Hist,
    pub rates: [f64; NFK],
    pub fk_n: [u64; NFK],
    pub explicit: Option<HashMap<(FK, u64), u64>>,
    pub fired: Vec<(FK, u64, u64)>,
    pub end: End,
    pub steps: u64,
    pub trace: u64,
    pub order: u64,
    pub next_port: u16,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
    pub log: Option<Vec<String>>,
    pub timed_done: Vec<bool>,
    pub nlat: u64,
}

pub struct Glob(UnsafeCell<Option<Box<World>>>);
unsafe impl Sync for Glob {}
static WORLD: Glob = Glob(UnsafeCell::new(None));
static TURN: Mutex<usize> = Mutex::new(usize::MAX);
static MAIN_CV: Condvar = Condvar::new();
pub const MAXC: usize = 8;
#[allow(clippy::declare_interior_mutable_const)]
const CV0: Condvar = Condvar::new();
static CVS: [Condvar; MAXC] = [CV0; MAXC];
pub const MAIN: usize = usize::MAX;

thread_local! {
    pub static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    pub static DEPTH: Cell<u32> = const { Cell::new(0) };
}
/// Some(client) when the calling thread is a simulated client outside simulator code
pub fn sim_me() -> Option<usize> {
    let m = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if m == usize::MAX {
        return None;
    }
    if DEPTH.try_with(|d| d.get()).unwrap_or(1) > 0 {
        return None;
    }
    Some(m)
}
pub struct InSim;
impl InSim {
    pub fn new() -> InSim {
        DEPTH.with(|d| d.set(d.get() + 1));
        InSim
    }
}
impl Drop for InSim {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}
#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().expect("no world").as_mut() }
}
pub fn set_world(w: World) {
    unsafe {
        *WORLD.0.get() = Some(Box::new(w));
    }
}
/// run simulator code from a client thread
pub fn with<R>(f: impl FnOnce(&mut World, usize) -> R) -> R {
    let me = ME.with(|m| m.get());
    let _g = InSim::new();
    f(world(), me)
}
fn handoff(to: usize) {
    let mut t = TURN.lock().unwrap();
    *t = to;
    if to == MAIN {
        MAIN_CV.notify_all();
    } else {
        CVS[to].notify_all();
    }
}
pub fn wait_turn(me: usize) {
    let mut t = TURN.lock().unwrap();
    while *t != me {
        t = if me == MAIN { MAIN_CV.wait(t).unwrap() } else { CVS[me].wait(t).unwrap() };
    }
}
pub fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

enum Step {
    Run(usize),
    Stop,
}

impl World {
    pub fn new(plan: Plan) -> World {
        let mut rates = [0.; NFK];
        for (k, r) in &plan.rates {
            rates[fki(*k)] = *r;
        }
        let explicit = plan.explicit.as_ref().map(|v| v.iter().map(|(k, i, p)| ((*k, *i), *p)).collect());
        let seed = plan.seed;
        let mut w = World {
            seed,
            now: 0,
            wall_delta: 0,
            seq: 0,
            heap: BinaryHeap::new(),
            heap_n: 0,
            clients: vec![],
            servers: vec![],
            conns: vec![],
            udps: vec![],
            eps: vec![],
            fds: vec![],
            disk: Disk::default(),
            blob: vec![],
            hist: Hist::default(),
            rates,
            fk_n: [0; NFK],
            explicit,
            fired: vec![],
            end: End::Running,
            steps: 0,
            trace: 0,
            order: 0,
            next_port: plan.cfg.port_base,
            probes: Default::default(),
            log: None,
            timed_done: vec![false; plan.timeline.len()],
            nlat: 0,
            plan,
        };
        for c in &w.plan.clients {
            w.clients.push(Cl {
                wait: Wait::None,
                token: 0,
                res: WaitRes::Ready,
                done: false,
                started: false,
                dead: false,
                cur_op: None,
                cur_cb_op: 0,
                op_t0: 0,
                op_s0: 0,
                conn: None,
                ncalls: 0,
                nreq: 0,
                ncb: 0,
                rt: c.rt.clone(),
                last_seen: None,
                errno_note: 0,
            });
        }
        let n = w.plan.servers.len();
        for i in 0..n {
            let s = Srv::new(&w.plan.servers[i], seed, i);
            w.servers.push(s);
            w.hist.states.push(vec![]);
            w.hist.grips.push(vec![]);
        }
        let bl = w.plan.servers.iter().map(|s| s.blob_len).max().unwrap_or(0);
        w.blob = (0..bl).map(|i| if i < 4 { b"\x7fELF"[i] } else { (h3(seed, 77, i as u64 / 8) >> (8 * (i % 8))) as u8 }).collect();
        if w.plan.disk_init == 1 {
            w.disk.inodes.push(Inode { data: w.blob.clone() });
            w.disk.dir.insert("/tmp/model.so".into(), 0);
        }
        for i in 0..w.plan.clients.len() {
            if w.plan.clients[i].after.is_none() {
                let t = w.plan.clients[i].start;
                w.at(t, Ev::Start(i));
            }
        }
        for i in 0..w.plan.timeline.len() {
            if let Trig::At(t) = w.plan.timeline[i].trig {
                w.at(t, Ev::Timed(i));
            }
        }
        w
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            if l.len() < 20000 {
                let s = f();
                l.push(format!("{:>12.6} {}", self.now as f64 / 1e6, s));
            }
        }
    }
    pub fn nseq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    pub fn tr(&mut self, a: u64, b: u64) {
        self.trace = mix(self.trace ^ mix(a.wrapping_mul(0x9E37).wrapping_add(b)));
    }
    pub fn at(&mut self, t: u64, ev: Ev) {
        self.heap_n += 1;
        let t = t.max(self.now);
        self.heap.push(HeapItem { t, n: self.heap_n, ev });
    }
    /// fault oracle: does the next opportunity of kind k fire, and with which parameter
    pub fn fault(&mut self, k: FK) -> Option<u64> {
        let i = fki(k);
        let idx = self.fk_n[i];
        self.fk_n[i] += 1;
        let r = match &self.explicit {
            Some(m) => m.get(&(k, idx)).copied(),
            None => {
                if self.rates[i] > 0.
                    && self.now >= self.plan.cfg.fault_from
                    && self.now < self.plan.cfg.fault_until
                    && unit(h3(self.seed, ST_FAULT + i as u64, idx)) < self.rates[i]
                {
                    Some(h3(self.seed, ST_FAULT + 100 + i as u64, idx) >> 11)
                } else {
                    None
                }
            }
        };
        if let Some(p) = r {
            self.fired.push((k, idx, p));
            self.tr(9000 + i as u64, idx);
            self.note(|| format!("FAULT {:?} #{} param {}", k, idx, p));
        }
        r
    }
    pub fn lat(&mut self, tcp: bool) -> u64 {
        self.nlat += 1;
        let h = h3(self.seed, ST_LAT, self.nlat);
        let (a, b) = if tcp {
            (self.plan.cfg.tcp_lat_min, self.plan.cfg.tcp_lat_max)
        } else {
            (self.plan.cfg.lat_min, self.plan.cfg.lat_max)
        };
        a + h % (b.saturating_sub(a) + 1)
    }

    // ---------------------------------------------------------------- scheduler
    fn next(&mut self) -> Step {
        loop {
            if self.end != End::Running {
                return Step::Stop;
            }
            let it = match self.heap.pop() {
                Some(i) => i,
                None => {
                    self.end = if self.clients.iter().all(|c| c.done || c.dead) { End::AllDone } else { End::Deadline };
                    return Step::Stop;
                }
            };
            if self.clients.iter().all(|c| c.done || c.dead) {
                self.end = End::AllDone;
                return Step::Stop;
            }
            self.now = it.t.max(self.now);
            self.steps += 1;
            if self.now > self.plan.cfg.deadline {
                self.end = End::Deadline;
                return Step::Stop;
            }
            if self.steps > 30_000_000 {
                self.end = End::StepCap;
                return Step::Stop;
            }
            match it.ev {
                Ev::Wake(c, tok) => {
                    if self.clients[c].token == tok && !self.clients[c].dead {
                        self.clients[c].token += 1;
                        self.order = mix(self.order ^ (c as u64 + 1));
                        return Step::Run(c);
                    }
                }
                Ev::Start(c) => {
                    if !self.clients[c].started {
                        self.clients[c].started = true;
                        self.clients[c].token += 1;
                        self.order = mix(self.order ^ (c as u64 + 100));
                        return Step::Run(c);
                    }
                }
                Ev::Intr(c, tok) => {
                    if self.clients[c].token == tok {
                        self.clients[c].res = WaitRes::Intr;
                        self.clients[c].wait = Wait::None;
                        self.clients[c].token += 1;
                        self.probe("eintr_in_wait");
                        return Step::Run(c);
                    }
                }
                Ev::Spur(c, tok) => {
                    if self.clients[c].token == tok {
                        self.clients[c].res = WaitRes::Spurious;
                        self.clients[c].wait = Wait::None;
                        self.clients[c].token += 1;
                        self.probe("spurious_in_wait");
                        return Step::Run(c);
                    }
                }
                ev => {
                    let k = ev_kind(&ev);
                    self.order = mix(self.order ^ k);
                    self.tr(k, self.now);
                    self.handle(ev);
                    self.check_waiters();
                }
            }
        }
    }
    fn check_waiters(&mut self) {
        for c in 0..self.clients.len() {
            if matches!(self.clients[c].wait, Wait::None | Wait::Sleep) {
                continue;
            }
            if self.ready(c) {
                self.clients[c].wait = Wait::None;
                self.clients[c].res = WaitRes::Ready;
                self.clients[c].token += 1;
                let tok = self.clients[c].token;
                self.clients[c].ncalls += 1;
                let h = h3(self.seed, ST_WAKE + 16 * c as u64, self.clients[c].ncalls);
                let t = self.now + 200 + h % 4000;
                self.at(t, Ev::Wake(c, tok));
            }
        }
    }
    fn ready(&self, c: usize) -> bool {
        match &self.clients[c].wait {
            Wait::None | Wait::Sleep => false,
            Wait::Epoll(e) => self.ep_ready(*e),
            Wait::Read(o) => self.readable(*o),
            Wait::Connect(k) => self.conns[*k].state != CS::Connecting,
            Wait::Poll(v) => v.iter().any(|(o, e)| self.poll_bits(*o, *e) != 0),
        }
    }
    pub fn readable(&self, o: SockRef) -> bool {
        match o {
            SockRef::Tcp(c) => {
                let c = &self.conns[c];
                !c.rx.is_empty() || c.fin || c.err.is_some() || c.hup
            }
            SockRef::Udp(u) => !self.udps[u].q.is_empty(),
            _ => true,
        }
    }
    pub fn poll_bits(&self, o: SockRef, ev: i16) -> i16 {
        let mut r = 0;
        if ev & libc::POLLIN != 0 && self.readable(o) {
            r |= libc::POLLIN;
        }
        match o {
            SockRef::Tcp(c) => {
                let c = &self.conns[c];
                if ev & libc::POLLOUT != 0 && c.state != CS::Connecting {
                    r |= libc::POLLOUT;
                }
                if c.err.is_some() || c.state == CS::Failed {
                    r |= libc::POLLERR;
                }
                if c.hup {
                    r |= libc::POLLHUP;
                }
                if ev & libc::POLLRDHUP != 0 && c.fin {
                    r |= libc::POLLRDHUP;
                }
            }
            _ => {
                if ev & libc::POLLOUT != 0 {
                    r |= libc::POLLOUT;
                }
            }
        }
        r
    }
    fn ep_bits(&self, w: &Watch) -> u32 {
        let mut ev = 0i16;
        if w.events & libc::EPOLLIN as u32 != 0 {
            ev |= libc::POLLIN;
        }
        if w.events & libc::EPOLLOUT as u32 != 0 {
            ev |= libc::POLLOUT;
        }
        if w.events & libc::EPOLLRDHUP as u32 != 0 {
            ev |= libc::POLLRDHUP;
        }
        self.poll_bits(w.obj, ev) as u16 as u32
    }
    fn obj_seq(&self, o: SockRef) -> u64 {
        match o {
            SockRef::Tcp(c) => self.conns[c].rx_seq,
            SockRef::Udp(u) => self.udps[u].rx_seq,
            _ => 1,
        }
    }
    fn ep_ready(&self, e: usize) -> bool {
        self.eps[e].w.iter().any(|w| {
            self.ep_bits(w) != 0 && (w.events & libc::EPOLLET as u32 == 0 || w.seen < self.obj_seq(w.obj))
        })
    }
    /// collect events of an epoll set, consuming edges
    pub fn ep_collect(&mut self, e: usize, max: usize) -> Vec<(u32, u64)> {
        let mut out = vec![];
        for i in 0..self.eps[e].w.len() {
            if out.len() >= max {
                break;
            }
            let bits = self.ep_bits(&self.eps[e].w[i]);
            let sq = self.obj_seq(self.eps[e].w[i].obj);
            let et = self.eps[e].w[i].events & libc::EPOLLET as u32 != 0;
            if et && self.eps[e].w[i].seen >= sq {
                continue;
            }
            if et {
                self.eps[e].w[i].seen = sq;
            }
            if bits != 0 {
                out.push((bits, self.eps[e].w[i].data));
            }
        }
        out
    }
    /// let the calling client sleep until another event decides it may run; returns why
    pub fn block(&mut self, me: usize) {
        match self.next() {
            Step::Run(c) if c == me => {}
            Step::Run(c) => {
                handoff(c);
                wait_turn(me);
            }
            Step::Stop => {
                handoff(MAIN);
                park_forever();
            }
        }
    }
    pub fn leave(&mut self, _me: usize) -> ! {
        match self.next() {
            Step::Run(c) => handoff(c),
            Step::Stop => handoff(MAIN),
        }
        park_forever();
    }
    pub fn run_main(&mut self) {
        match self.next() {
            Step::Run(c) => {
                handoff(c);
                wait_turn(MAIN);
            }
            Step::Stop => {}
        }
    }
    pub fn sleep(&mut self, me: usize, ns: u64) {
        let t = self.now + ns;
        // nothing else can happen before: no need to go through the queue
        if self.heap.peek().map(|i| i.t > t).unwrap_or(false) && t <= self.plan.cfg.deadline {
            self.now = t;
            self.steps += 1;
            return;
        }
        self.clients[me].wait = Wait::Sleep;
        let tok = self.clients[me].token;
        self.at(t, Ev::Wake(me, tok));
        self.block(me);
        self.clients[me].wait = Wait::None;
    }
    /// every system call takes a little (seeded) time, sometimes a lot
    pub fn charge(&mut self, me: usize) {
        self.clients[me].ncalls += 1;
        let h = h3(self.seed, ST_COST + 16 * me as u64, self.clients[me].ncalls);
        let (a, b) = (self.plan.cfg.cost_min, self.plan.cfg.cost_max);
        let mut c = a + h % (b.saturating_sub(a) + 1);
        if let Some(p) = self.fault(FK::Stall) {
            c += p % self.plan.cfg.stall_max.max(1);
        }
        self.sleep(me, c);
    }
    pub fn wait(&mut self, me: usize, w: Wait, deadline: Option<u64>, intr_ok: bool, spur_ok: bool) -> WaitRes {
        self.clients[me].wait = w;
        self.clients[me].res = WaitRes::Timeout;
        if self.ready(me) {
            self.clients[me].wait = Wait::None;
            return WaitRes::Ready;
        }
        if let Some(d) = deadline {
            if d <= self.now {
                self.clients[me].wait = Wait::None;
                return WaitRes::Timeout;
            }
        }
        let tok = self.clients[me].token;
        let span = deadline.map(|d| d - self.now).unwrap_or(20 * MS).min(20 * MS);
        if intr_ok {
            if let Some(p) = self.fault(FK::Eintr) {
                // mostly early, so that it hits before the awaited message
                let sp = if p & 1 == 0 { span } else { span.min(MS) };
                let t = self.now + (p >> 1) % sp.max(1);
                self.at(t, Ev::Intr(me, tok));
            }
        }
        if spur_ok {
            if let Some(p) = self.fault(FK::Spurious) {
                let sp = if p & 1 == 0 { span } else { span.min(MS) };
                let t = self.now + (p >> 1) % sp.max(1);
                self.at(t, Ev::Spur(me, tok));
            }
        }
        if let Some(d) = deadline {
            self.at(d, Ev::Wake(me, tok));
        }
        self.block(me);
        self.clients[me].wait = Wait::None;
        self.clients[me].res
    }

    // ---------------------------------------------------------------- events
    fn handle(&mut self, ev: Ev) {
        match ev {
            Ev::Tick(s, e) => self.tick(s, e),
            Ev::UdpToClient { udp, bytes, srv, id, runt, port } => {
                let cap = self.plan.cfg.rcvbuf;
                let ip = self.plan.servers[srv].ip;
                let s = self.nseq();
                let client = self.udps[udp].client;
                if self.udps[udp].closed {
                    return;
                }
                let queued = self.udps[udp].q.len() < cap;
                if queued {
                    self.udps[udp].q.push_back((bytes, ip, port));
                    self.udps[udp].rx_seq += 1;
                } else {
                    self.probe("rcvbuf_overflow");
                }
                let t = self.now;
                let shows = self.hist.state(srv, id).map(|x| (x.mg, x.cm, x.mode));
                self.note(|| format!("state {} {:?} arrives at client {}{}{}", id, shows, client, if runt { " (truncated)" } else { "" }, if queued { "" } else { " (buffer full)" }));
                self.hist.arrivals.push(ArrRec { t, s, client, sock: udp, srv, id, runt, queued });
            }
            Ev::UdpToServer { srv, client, bytes } => {
                if self.servers[srv].link_down {
                    return;
                }
                self.srv_command(srv, client, &bytes);
            }
            Ev::TcpToServer { conn, bytes } => {
                let srv = self.conns[conn].srv;
                if self.conns[conn].srv_dead_rst {
                    if !self.servers[srv].link_down {
                        let t = self.now + self.lat(true);
                        let e = if self.conns[conn].fin { libc::EPIPE } else { libc::ECONNRESET };
                        self.at(t, Ev::RstToClient(conn, e));
                    }
                    return;
                }
                if self.servers[srv].link_down {
                    self.conns[conn].held_to_server.push(bytes);
                    self.conns[conn].unacked = true;
                    return;
                }
                let n = bytes.len().min(self.conns[conn].fly_s.len());
                let bytes: Vec<u8> = self.conns[conn].fly_s.drain(..n).collect();
                self.srv_receive(conn, &bytes);
            }
            Ev::TcpToClient { conn, bytes } => {
                let srv = self.conns[conn].srv;
                if self.servers[srv].link_down {
                    self.conns[conn].held_to_client.push(bytes);
                    return;
                }
                let s = self.nseq();
                let now = self.now;
                let c = &mut self.conns[conn];
                if c.closed || c.err.is_some() || c.hup {
                    return;
                }
                let n = bytes.len().min(c.fly_c.len());
                let bytes: Vec<u8> = c.fly_c.drain(..n).collect();
                c.recv_total += bytes.len() as u64;
                c.rx.extend(bytes.iter());
                c.rx_seq += 1;
                let rt = c.recv_total;
                let full: Vec<usize> = c.resps.iter().filter(|(e, _)| *e <= rt).map(|(_, i)| *i).collect();
                c.resps.retain(|(e, _)| *e > rt);
                for i in full {
                    self.hist.resps[i].t_full = Some(now);
                    self.hist.resps[i].s_full = s;
                }
                self.note(|| format!("{} stream bytes arrive on connection {}", bytes.len(), conn));
            }
            Ev::Flush(conn) => {
                if !self.conns[conn].hold.is_empty() && self.now >= self.conns[conn].hold_until {
                    let b = std::mem::take(&mut self.conns[conn].hold);
                    self.tcp_segments(conn, b, 0);
                }
            }
            Ev::FinToClient(conn) => {
                let srv = self.conns[conn].srv;
                if self.servers[srv].link_down || !self.conns[conn].fly_c.is_empty() {
                    return;
                }
                if !self.conns[conn].fin && !self.conns[conn].closed {
                    self.conns[conn].fin = true;
                    self.conns[conn].rx_seq += 1;
                    self.loss(conn);
                }
            }
            Ev::RstToClient(conn, e) => {
                let srv = self.conns[conn].srv;
                if self.servers[srv].link_down && e != libc::ETIMEDOUT {
                    return;
                }
                let c = &mut self.conns[conn];
                if !c.hup && !c.closed {
                    c.err = Some(e);
                    c.hup = true;
                    c.fin = true;
                    c.rx_seq += 1;
                    self.loss(conn);
                }
            }
            Ev::FinToServer(conn) => {
                let srv = self.conns[conn].srv;
                let _ = srv; // while the link is down the peer finds out by its own keep-alive
                self.srv_gone(conn);
            }
            Ev::ConnDone(conn, e) => {
                let c = &mut self.conns[conn];
                if c.state == CS::Connecting {
                    c.so_error = e;
                    c.rx_seq += 1;
                    if e == 0 {
                        c.state = CS::Up;
                        c.srv_alive = true;
                        let (client, srv, p) = (c.client, c.srv, c.local_port);
                        let (t, s) = (self.now, self.nseq());
                        self.hist.net.push((t, s, NetEv::Connected { conn, client, srv, sock_port: p }));
                    } else {
                        c.state = CS::Failed;
                    }
                }
            }
            Ev::Respond { conn, cmd, id, payload } => self.srv_send(conn, cmd, id, &payload),
            Ev::MoveResp { srv, motion, status } => self.move_resp(srv, motion, status),
            Ev::AbortResp { srv, motion } => self.abort_resp(srv, motion),
            Ev::KeepDead(conn, epoch) => {
                let srv = self.conns[conn].srv;
                if self.servers[srv].link_epoch != epoch || !self.servers[srv].link_down {
                    return;
                }
                self.probe("keepalive_expired");
                self.srv_gone(conn);
                self.conns[conn].srv_dead_rst = true;
                if self.conns[conn].unacked {
                    let t = self.now + 920 * SEC;
                    self.at(t, Ev::RtoDead(conn, epoch));
                } else {
                    let e = libc::ETIMEDOUT;
                    self.at(self.now, Ev::RstToClient(conn, e));
                }
            }
            Ev::RtoDead(conn, epoch) => {
                let srv = self.conns[conn].srv;
                if self.servers[srv].link_epoch == epoch && self.servers[srv].link_down {
                    self.at(self.now, Ev::RstToClient(conn, libc::ETIMEDOUT));
                }
            }
            Ev::Timed(i) => self.do_timed(i),
            Ev::LinkUp(srv, epoch) => {
                if self.servers[srv].link_epoch == epoch && self.servers[srv].link_down {
                    self.link_up(srv);
                }
            }
            Ev::SilenceEnd(srv, epoch) => {
                if self.servers[srv].silence_epoch == epoch {
                    self.servers[srv].silent = false;
                }
            }
            Ev::Start(_) | Ev::Wake(..) | Ev::Intr(..) | Ev::Spur(..) => unreachable!(),
        }
    }
    fn loss(&mut self, conn: usize) {
        if !self.conns[conn].loss_seen {
            self.conns[conn].loss_seen = true;
            let (t, s) = (self.now, self.nseq());
            self.note(|| format!("connection {} is lost (visible to the client)", conn));
            self.hist.net.push((t, s, NetEv::Loss { conn }));
        }
    }
    pub fn link_down(&mut self, srv: usize) {
        if self.servers[srv].link_down {
            return;
        }
        self.servers[srv].link_down = true;
        self.servers[srv].link_down_at = self.now;
        self.servers[srv].link_epoch += 1;
        let ep = self.servers[srv].link_epoch;
        let (t, s) = (self.now, self.nseq());
        self.hist.net.push((t, s, NetEv::LinkDown { srv }));
        for k in 0..self.conns.len() {
            let c = &self.conns[k];
            if c.srv == srv && c.state == CS::Up && !c.closed && !c.hup && c.keep {
                let d = (c.keep_idle + c.keep_cnt * c.keep_intvl) * SEC + h3(self.seed, ST_MISC, 500 + k as u64) % SEC;
                self.at(t + d, Ev::KeepDead(k, ep));
            }
        }
    }
    pub fn link_up(&mut self, srv: usize) {
        self.servers[srv].link_down = false;
        let (t, s) = (self.now, self.nseq());
        self.hist.net.push((t, s, NetEv::LinkUp { srv }));
        for k in 0..self.conns.len() {
            if self.conns[k].srv != srv || self.conns[k].state != CS::Up {
                continue;
            }
            if self.conns[k].hup {
                self.srv_gone(k);
                continue;
            }
            if self.conns[k].srv_dead_rst {
                // keep-alive probes of connections the peer no longer knows are answered by a reset
                if self.conns[k].keep && !self.conns[k].closed {
                    let t = self.now + self.lat(true) + h3(self.seed, ST_MISC, k as u64) % SEC;
                    self.at(t, Ev::RstToClient(k, libc::ECONNRESET));
                }
                continue;
            }
            let toc = std::mem::take(&mut self.conns[k].held_to_client);
            let tos = std::mem::take(&mut self.conns[k].held_to_server);
            self.conns[k].unacked = false;
            // retransmission takes a while
            let mut tt = self.now + 50 * MS + h3(self.seed, ST_MISC, 900 + k as u64) % (200 * MS);
            for b in toc {
                tt += 1000;
                self.at(tt, Ev::TcpToClient { conn: k, bytes: b });
            }
            for b in tos {
                tt += 1000;
                self.at(tt, Ev::TcpToServer { conn: k, bytes: b });
            }
            self.conns[k].last_to_client = self.conns[k].last_to_client.max(tt);
            self.conns[k].last_to_server = self.conns[k].last_to_server.max(tt);
        }
        self.start_ticks(srv);
    }
    pub fn do_timed(&mut self, i: usize) {
        if self.timed_done[i] {
            return;
        }
        self.timed_done[i] = true;
        let act = self.plan.timeline[i].act.clone();
        self.note(|| format!("ACT {:?}", act));
        self.tr(7000 + i as u64, self.now);
        match act {
            Act::Fin { srv } => {
                if let Some(c) = self.servers[srv].conn {
                    self.srv_close(c, false);
                }
            }
            Act::Rst { srv } => {
                if let Some(c) = self.servers[srv].conn {
                    self.srv_close(c, true);
                }
            }
            Act::Blackhole { srv, dur } => {
                self.link_down(srv);
                if dur > 0 {
                    let ep = self.servers[srv].link_epoch;
                    self.at(self.now + dur, Ev::LinkUp(srv, ep));
                }
            }
            Act::Silence { srv, dur } => {
                self.servers[srv].silent = true;
                self.servers[srv].silence_epoch += 1;
                let e = self.servers[srv].silence_epoch;
                if dur > 0 {
                    self.at(self.now + dur, Ev::SilenceEnd(srv, e));
                }
            }
            Act::Restart { srv, dur } => {
                let cs: Vec<usize> = (0..self.conns.len()).filter(|k| self.conns[*k].srv == srv && self.conns[*k].srv_alive).collect();
                for c in cs {
                    self.conns[c].srv_dead_rst = true;
                    self.srv_gone(c);
                    self.conns[c].held_to_client.clear();
                    self.conns[c].held_to_server.clear();
                }
                self.servers[srv].reboot();
                self.link_down(srv);
                let ep = self.servers[srv].link_epoch;
                self.at(self.now + dur.max(1), Ev::LinkUp(srv, ep));
            }
            Act::CutResp { srv, bytes, rst } => {
                if let Some(c) = self.servers[srv].conn {
                    self.conns[c].cut = Some((bytes, rst));
                }
            }
            Act::WallJump { delta } => self.wall_delta += delta,
            Act::Listen { srv, mode } => self.servers[srv].listening = mode,
        }
    }
    pub fn trigger(&mut self, f: impl Fn(&Trig) -> Option<u64>) {
        for i in 0..self.plan.timeline.len() {
            if self.timed_done[i] {
                continue;
            }
            if let Some(d) = f(&self.plan.timeline[i].trig) {
                if d == 0 {
                    self.do_timed(i);
                } else {
                    self.at(self.now + d, Ev::Timed(i));
                }
            }
        }
    }
    /// the server side ends a connection
    pub fn srv_close(&mut self, conn: usize, rst: bool) {
        let t = (self.now + self.lat(true)).max(self.conns[conn].last_to_client + 1);
        self.conns[conn].last_to_client = t;
        if rst {
            self.at(t, Ev::RstToClient(conn, libc::ECONNRESET));
        } else {
            if !self.conns[conn].hold.is_empty() {
                let b = std::mem::take(&mut self.conns[conn].hold);
                self.tcp_segments(conn, b, 0);
            }
            let t = t.max(self.conns[conn].last_to_client + 1);
            self.at(t, Ev::FinToClient(conn));
        }
        self.conns[conn].srv_dead_rst = true;
        self.srv_gone(conn);
    }
    /// a response leaves the server
    pub fn srv_send(&mut self, conn: usize, cmd: u32, id: u32, payload: &[u8]) {
        if !self.conns[conn].srv_alive {
            return;
        }
        let srv = self.conns[conn].srv;
        let g = self.plan.servers[srv].gripper;
        let mut bytes = response(g, cmd, id, payload);
        self.conns[conn].nresp += 1;
        if let Some((n, rst)) = self.conns[conn].cut.take() {
            let n = (n as usize).min(bytes.len().saturating_sub(1));
            bytes.truncate(n);
            self.probe("response_cut");
            self.conns[conn].sent_total += n as u64;
            self.note(|| format!("response to request {} is cut after {} bytes", id, n));
            // what was held back before leaves first
            let mut out = std::mem::take(&mut self.conns[conn].hold);
            out.extend_from_slice(&bytes);
            if !out.is_empty() {
                self.tcp_segments(conn, out, 0);
            }
            self.srv_close(conn, rst);
            return;
        }
        self.conns[conn].sent_total += bytes.len() as u64;
        let end = self.conns[conn].sent_total;
        let i = self.hist.resps.len();
        let t = self.now;
        self.hist.resps.push(RespRec { conn, srv, cmd, id, payload: payload.to_vec(), t_sent: t, t_full: None, s_full: u64::MAX });
        self.conns[conn].resps.push((end, i));
        self.note(|| format!("server {} answers request {} (command {}) status {:?}", srv, id, cmd, payload.first()));
        let mut extra = 0;
        if let Some(p) = self.fault(FK::TcpDelay) {
            extra = p % (60 * MS);
        }
        if !self.conns[conn].hold.is_empty() {
            self.conns[conn].hold.extend_from_slice(&bytes);
            self.probe("responses_coalesced");
            return;
        }
        if let Some(p) = self.fault(FK::TcpHold) {
            let d = MS + p % (40 * MS);
            self.conns[conn].hold = bytes;
            self.conns[conn].hold_until = self.now + d;
            self.at(self.now + d, Ev::Flush(conn));
            return;
        }
        self.tcp_segments(conn, bytes, extra);
    }
    fn tcp_segments(&mut self, conn: usize, bytes: Vec<u8>, extra: u64) {
        let mut t = (self.now + self.lat(true) + extra).max(self.conns[conn].last_to_client);
        let mut cuts: Vec<usize> = vec![];
        let n = bytes.len();
        let mut gap_max = 300_000u64;
        if let Some(p) = self.fault(FK::TcpSeg) {
            let mut r = Rng::new(p, 3);
            gap_max = *r.pick(&[0u64, 200_000, 3_000_000, 15_000_000]);
            if n <= 64 && r.chance(0.3) {
                cuts = (1..n).collect();
            } else {
                for _ in 0..r.range(1, 7) {
                    // bias to header boundaries
                    let c = if r.chance(0.3) { *r.pick(&[1u64, 4, 8, 9, 10, 11, 12, 13, 14]) as usize } else { 1 + r.below(n.max(2) as u64 - 1) as usize };
                    if c < n {
                        cuts.push(c);
                    }
                }
            }
            self.probe("response_segmented");
        }
        if n > 1448 {
            let mut r = Rng::new(h3(self.seed, ST_TCP, t), 4);
            let mut o = 0;
            while o < n {
                let c = if r.chance(0.5) { 1448 } else { 1 + r.below(60000) as usize };
                o += c;
                if o < n {
                    cuts.push(o);
                }
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        cuts.push(n);
        let mut a = 0;
        let mut r = Rng::new(h3(self.seed, ST_TCP, t ^ 0x55), 5);
        for c in cuts {
            if c > a {
                self.conns[conn].fly_c.extend(&bytes[a..c]);
                self.at(t, Ev::TcpToClient { conn, bytes: bytes[a..c].to_vec() });
                a = c;
                t += if gap_max == 0 { 0 } else { r.below(gap_max) };
            }
        }
        self.conns[conn].last_to_client = t;
    }
    /// a state datagram leaves the server
    pub fn srv_udp(&mut self, srv: usize, udp: usize, bytes: Vec<u8>, id: u64) {
        if self.servers[srv].link_down || self.servers[srv].silent {
            return;
        }
        if self.servers[srv].burst > 0 {
            self.servers[srv].burst -= 1;
            return;
        }
        if self.fault(FK::StDrop).is_some() {
            return;
        }
        if let Some(p) = self.fault(FK::StBurst) {
            self.servers[srv].burst = p % 20;
            return;
        }
        // the sender of the states gets another port (another socket, address translation)
        if let Some(p) = self.fault(FK::StMove) {
            self.servers[srv].udp_port = 1 + (p % 65535) as u16;
        }
        let port = self.servers[srv].udp_port;
        let mut t = self.now + self.lat(false);
        let dm = self.plan.cfg.delay_max.max(1);
        if let Some(p) = self.fault(FK::StDelay) {
            t += p % dm;
        }
        if let Some(p) = self.fault(FK::StRunt) {
            let n = (p >> 1) as usize % bytes.len();
            let b = bytes[..n].to_vec();
            let tt = t + (p >> 20) % 300_000;
            self.at(tt, Ev::UdpToClient { udp, bytes: b, srv, id, runt: true, port });
            if p & 1 == 0 {
                return;
            }
        }
        if let Some(p) = self.fault(FK::StDup) {
            let tt = self.now + self.lat(false) + p % dm;
            self.at(tt, Ev::UdpToClient { udp, bytes: bytes.clone(), srv, id, runt: false, port });
        }
        self.at(t, Ev::UdpToClient { udp, bytes, srv, id, runt: false, port });
    }
    pub fn cmd_to_server(&mut self, srv: usize, client: usize, bytes: Vec<u8>) {
        if self.servers[srv].link_down {
            return;
        }
        if self.fault(FK::CmdDrop).is_some() {
            return;
        }
        let mut t = self.now + self.lat(false);
        if let Some(p) = self.fault(FK::CmdDelay) {
            t += p % self.plan.cfg.delay_max.max(1);
        }
        if let Some(p) = self.fault(FK::CmdDup) {
            let tt = self.now + self.lat(false) + p % self.plan.cfg.delay_max.max(1);
            self.at(tt, Ev::UdpToServer { srv, client, bytes: bytes.clone() });
        }
        self.at(t, Ev::UdpToServer { srv, client, bytes });
    }
    /// a client process dies: its sockets close, its files stay
    pub fn crash_client(&mut self, me: usize) -> ! {
        self.note(|| format!("CRASH of client {}", me));
        let (t, s) = (self.now, self.nseq());
        self.hist.disk.push((t, s, me, DiskEv::Crash));
        let op = self.clients[me].cur_op.unwrap_or(0);
        let (t0, s0) = (self.clients[me].op_t0, self.clients[me].op_s0);
        self.hist.ops.push(OpRec { client: me, op, conn: self.clients[me].conn, t0, s0, t1: t, s1: s, out: Outcome::Crashed });
        self.clients[me].dead = true;
        for k in 0..self.conns.len() {
            if self.conns[k].client == me {
                self.close_conn(k);
            }
        }
        for u in 0..self.udps.len() {
            if self.udps[u].client == me {
                self.udps[u].closed = true;
            }
        }
        self.client_over(me);
        self.leave(me)
    }
    pub fn client_over(&mut self, me: usize) {
        for i in 0..self.plan.clients.len() {
            if self.plan.clients[i].after == Some(me) {
                let t = self.now + self.plan.clients[i].start;
                self.at(t, Ev::Start(i));
            }
        }
    }
    pub fn close_conn(&mut self, k: usize) {
        if self.conns[k].closed {
            return;
        }
        self.conns[k].closed = true;
        let (t, s) = (self.now, self.nseq());
        if self.conns[k].state == CS::Up {
            self.hist.net.push((t, s, NetEv::ClientClosed { conn: k }));
            let tt = (t + self.lat(true)).max(self.conns[k].last_to_server + 1);
            self.at(tt, Ev::FinToServer(k));
        }
    }
}
pub fn fki(k: FK) -> usize {
    ALL_FK.iter().position(|x| *x == k).unwrap()
}
fn ev_kind(e: &Ev) -> u64 {
    match e {
        Ev::Start(i) => 10 + *i as u64 * 100,
        Ev::Wake(i, _) => 11 + *i as u64 * 100,
        Ev::Intr(i, _) => 12 + *i as u64 * 100,
        Ev::Spur(i, _) => 13 + *i as u64 * 100,
        Ev::Tick(i, _) => 14 + *i as u64 * 100,
        Ev::UdpToClient { udp, .. } => 15 + *udp as u64 * 100,
        Ev::UdpToServer { srv, .. } => 16 + *srv as u64 * 100,
        Ev::TcpToServer { conn, .. } => 17 + *conn as u64 * 100,
        Ev::TcpToClient { conn, .. } => 18 + *conn as u64 * 100,
        Ev::Flush(c) => 19 + *c as u64 * 100,
        Ev::FinToClient(c) => 20 + *c as u64 * 100,
        Ev::RstToClient(c, _) => 21 + *c as u64 * 100,
        Ev::FinToServer(c) => 22 + *c as u64 * 100,
        Ev::ConnDone(c, _) => 23 + *c as u64 * 100,
        Ev::Respond { conn, .. } => 24 + *conn as u64 * 100,
        Ev::MoveResp { srv, .. } => 25 + *srv as u64 * 100,
        Ev::AbortResp { srv, .. } => 26 + *srv as u64 * 100,
        Ev::KeepDead(c, _) => 27 + *c as u64 * 100,
        Ev::RtoDead(c, _) => 28 + *c as u64 * 100,
        Ev::Timed(i) => 29 + *i as u64 * 100,
        Ev::LinkUp(i, _) => 30 + *i as u64 * 100,
        Ev::SilenceEnd(i, _) => 31 + *i as u64 * 100,
    }
}
