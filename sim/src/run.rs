//! One simulated run: executed in a forked child, result handed back through a pipe.
use crate::client;
use crate::hist::*;
use crate::oracle::{self, Finding};
use crate::plan::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::FromRawFd;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunOut {
    pub findings: Vec<Finding>,
    pub fired: Vec<(FK, u64, u64)>,
    pub trace: u64,
    pub order: u64,
    pub now: u64,
    pub steps: u64,
    pub end: String,
    pub harness: Option<String>,
    #[serde(default)]
    pub spun: bool,
    pub ops: BTreeMap<String, u64>,
    pub subj: BTreeMap<String, u64>,
    pub ncb: u64,
    pub ncmd: u64,
    pub nreq: u64,
    pub narr: u64,
    pub tol: f64,
    pub jm: f64,
    pub probes: BTreeMap<String, u64>,
    pub log: Option<Vec<String>>,
}
pub fn op_name(o: &Op) -> &'static str {
    match o {
        Op::Connect { .. } => "Connect",
        Op::Disconnect => "Disconnect",
        Op::ReadOnce => "ReadOnce",
        Op::Read { .. } => "Read",
        Op::Set { .. } => "Set",
        Op::SetDefault { .. } => "SetDefault",
        Op::Recovery { .. } => "Recovery",
        Op::Stop { .. } => "Stop",
        Op::Wall { .. } => "VirtualWall",
        Op::Motion(m) if m.pure_torque => "TorqueControl",
        Op::Motion(m) => match m.kind {
            MK::JP => "JointPositionControl",
            MK::JV => "JointVelocityControl",
            MK::CP => "CartesianPoseControl",
            MK::CV => "CartesianVelocityControl",
        },
        Op::JointMotion { .. } => "JointMotion",
        Op::LoadModel { .. } => "LoadModel",
        Op::EvalModel { .. } => "EvalModel",
        Op::ServerVersion | Op::GVersion => "ServerVersion",
        Op::Sleep { .. } => "Sleep",
        Op::Rt(_) => "RtEnv",
        Op::Foreign { .. } => "Foreign",
        Op::GRead => "GripperRead",
        Op::GHoming { .. } => "GripperHoming",
        Op::GMove { .. } => "GripperMove",
        Op::GGrasp { .. } => "GripperGrasp",
        Op::GStop { .. } => "GripperStop",
    }
}
fn subjects(p: &Plan, h: &Hist, fired: &[(FK, u64, u64)]) -> BTreeMap<String, u64> {
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    let mut add = |k: &str, n: u64| {
        if n > 0 {
            *m.entry(k.to_string()).or_insert(0) += n;
        }
    };
    let mut dl = h.cbs.len() as u64;
    let mut failed = vec![false; p.clients.len()];
    for o in &h.ops {
        let op = &p.clients[o.client].ops[o.op];
        if matches!(o.out, Outcome::Skipped) {
            continue;
        }
        match op {
            Op::ReadOnce => dl += matches!(o.out, Outcome::Ok(_)) as u64,
            Op::Connect { .. } => {
                add("C15", 1);
                failed[o.client] = false;
            }
            Op::GRead => add("C17", 1),
            Op::GHoming { .. } | Op::GMove { .. } | Op::GGrasp { .. } | Op::GStop { .. } => add("C16", 1),
            Op::LoadModel { .. } => add("C18", 1),
            Op::Motion(_) => {
                add("C20", 1);
            }
            Op::JointMotion { .. } => {
                add("C20", 1);
                add("C23", 1);
            }
            _ => {}
        }
        if matches!(op, Op::Motion(_) | Op::JointMotion { .. }) && matches!(o.out, Outcome::Err(ErrK::Control { log: Some(_) }, _)) {
            add("C11", 1);
        }
        if failed[o.client] && !matches!(op, Op::Connect { .. } | Op::Sleep { .. }) {
            add("C21", 1);
        }
        if matches!(o.out, Outcome::Err(..)) {
            failed[o.client] = true;
        }
    }
    if p.clients.len() > 1 {
        add("C21", h.ops.len() as u64);
    }
    for k in ["C01", "C02", "C03"] {
        add(k, dl);
    }
    let mc = h.cbs.iter().filter(|c| c.kind != CbKind::Read).count() as u64;
    for k in ["C04", "C05", "C07"] {
        add(k, mc);
    }
    for c in &h.cbs {
        if c.invalid {
            add("C08", 1);
        }
        if c.kind != CbKind::Read {
            if let Some(Op::Motion(m)) = p.clients[c.client].ops.get(c.op) {
                if m.limit != Some(false) {
                    add("C06", 1);
                }
            }
        }
    }
    for x in &h.motions {
        if x.rejected.is_some() || x.end.as_ref().map(|e| e.kind != EndKind::Finish || e.status != 0).unwrap_or(false) {
            add("C10", 1);
        } else {
            add("C09", 1);
        }
    }
    add("C12", h.resps.len() as u64);
    add("C13", h.reqs.len() as u64);
    let losses = h.net.iter().filter(|n| matches!(n.2, NetEv::Loss { .. } | NetEv::LinkDown { .. })).count();
    let sil = p.timeline.iter().filter(|t| matches!(t.act, Act::Silence { .. })).count();
    add("C14", (losses + sil) as u64);
    add("C19", h.eval_n);
    add("C22", fired.iter().filter(|f| matches!(f.0, FK::Eintr | FK::Spurious | FK::ShortRead | FK::ShortWrite)).count() as u64);
    m
}

/// run a plan in this process (once per process)
pub fn execute(plan: Plan, log: bool) -> RunOut {
    let n = plan.clients.len();
    let p2 = plan.clone();
    set_world(World::new(plan));
    if log {
        world().log = Some(vec![]);
    }
    for i in 0..n {
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || client::client_main(i)).unwrap();
    }
    world().run_main();
    let w = world();
    let mut out = RunOut::default();
    if let End::Harness(m) = &w.end {
        out.harness = Some(m.clone());
    }
    if w.end == End::StepCap {
        // far beyond what any workload needs: the library keeps issuing calls without end
        out.spun = true;
    }
    let (now, seq) = (w.now, w.seq + 1);
    for c in 0..n {
        let cl = &w.clients[c];
        if let (Some(op), false, false) = (cl.cur_op, cl.dead, cl.done) {
            let r = OpRec { client: c, op, conn: cl.conn, t0: cl.op_t0, s0: cl.op_s0, t1: now, s1: seq, out: Outcome::Hang };
            w.hist.ops.push(r);
        }
    }
    let final_file = match w.disk.content("/tmp/model.so") {
        None => -1,
        Some(d) if *d == w.blob => 1,
        Some(_) => 0,
    };
    out.findings = oracle::check(oracle::In {
        plan: &p2,
        h: &w.hist,
        end: w.end.clone(),
        now,
        fired: &w.fired,
        conn_udp: w.conns.iter().map(|c| c.udp).collect(),
        conn_srv: w.conns.iter().map(|c| c.srv).collect(),
        final_file,
    });
    for o in &w.hist.ops {
        let k = match &o.out {
            Outcome::Err(e, _) => e.name().to_string(),
            Outcome::Ok(Val::Bool(b)) => format!("Ok({})", b),
            Outcome::Ok(_) => "Ok".into(),
            Outcome::Panic(_) => "panic".into(),
            Outcome::Hang => "hang".into(),
            Outcome::Crashed => "crashed".into(),
            Outcome::Skipped => continue,
        };
        *out.ops.entry(format!("{}:{}", op_name(&p2.clients[o.client].ops[o.op]), k)).or_insert(0) += 1;
    }
    out.subj = subjects(&p2, &w.hist, &w.fired);
    out.ncb = w.hist.cbs.len() as u64;
    out.ncmd = w.hist.cmds.len() as u64;
    out.nreq = w.hist.reqs.len() as u64;
    out.narr = w.hist.arrivals.len() as u64;
    out.tol = oracle::TOLSTAT.with(|t| t.get());
    out.jm = oracle::JMSTAT.with(|t| t.get());
    out.fired = w.fired.clone();
    out.trace = w.trace;
    out.order = w.order;
    out.now = now;
    out.steps = w.steps;
    out.end = format!("{:?}", w.end);
    out.probes = w.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    out.log = w.log.take();
    out
}

pub fn write_all(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}
pub fn pipe() -> (i32, i32) {
    let mut f = [0; 2];
    unsafe {
        libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC);
    }
    (f[0], f[1])
}
pub fn pack(out: &RunOut) -> Vec<u8> {
    // (non-finite floats do not occur in results; maxima start at zero)
    serde_json::to_vec(out).unwrap_or_default()
}
pub enum Res {
    Done(Box<RunOut>),
    /// the process running the library died or spun for ever: signal or reason
    Died(String),
}
pub const CPU_LIMIT: u64 = 30;
/// fork, run, collect
pub fn forked(plan: &Plan, log: bool, quiet: bool) -> Res {
    let (r, w) = pipe();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::close(r);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let cpu = if plan.family == "vast" { 4 * CPU_LIMIT } else { CPU_LIMIT };
            let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            if quiet {
                let z = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(z, 1);
                libc::dup2(z, 2);
            }
        }
        let r = std::panic::catch_unwind(|| execute(plan.clone(), log));
        let out = match r {
            Ok(o) => o,
            Err(_) => RunOut { harness: Some("the harness panicked".into()), ..Default::default() },
        };
        write_all(w, &pack(&out));
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(w) };
    if pid < 0 {
        unsafe { libc::close(r) };
        return Res::Done(Box::new(RunOut { harness: Some("fork failed".into()), ..Default::default() }));
    }
    let mut buf = vec![];
    let mut f = unsafe { std::fs::File::from_raw_fd(r) };
    let _ = f.read_to_end(&mut buf);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGKILL || s == libc::SIGTERM {
            // from outside: says nothing about the library
            return Res::Done(Box::new(RunOut { harness: Some(format!("a run was killed from outside (signal {})", s)), ..Default::default() }));
        }
        return Res::Died(match s {
            libc::SIGXCPU => format!("spun for {} s of CPU time without a simulated step ending the run", CPU_LIMIT),
            libc::SIGABRT => "aborted (panic while panicking, or failed allocation)".into(),
            libc::SIGSEGV => "segmentation fault".into(),
            s => format!("killed by signal {}", s),
        });
    }
    match serde_json::from_slice::<RunOut>(&buf) {
        Ok(o) if o.spun => Res::Died(format!("issued {} calls without getting anywhere", o.steps)),
        Ok(o) => Res::Done(Box::new(o)),
        Err(e) => Res::Done(Box::new(RunOut { harness: Some(format!("no result from the run: {}", e)), ..Default::default() })),
    }
}
