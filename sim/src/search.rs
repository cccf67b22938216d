//! Seeded search over many runs, minimisation, replay, evidence.
use crate::gen;
use crate::oracle::Finding;
use crate::plan::*;
use crate::rng::*;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::BufRead;
use std::os::fd::FromRawFd;
use std::time::Instant;

// ------------------------------------------------------------------ replay files
fn sent(x: f64) -> f64 {
    if x.is_nan() {
        f64::from_bits(0x7FEF_FFFF_FFFF_FF01)
    } else if x == f64::INFINITY {
        f64::from_bits(0x7FEF_FFFF_FFFF_FF02)
    } else if x == f64::NEG_INFINITY {
        f64::from_bits(0x7FEF_FFFF_FFFF_FF03)
    } else {
        x
    }
}
fn unsent(x: f64) -> f64 {
    match x.to_bits() {
        0x7FEF_FFFF_FFFF_FF01 => f64::NAN,
        0x7FEF_FFFF_FFFF_FF02 => f64::INFINITY,
        0x7FEF_FFFF_FFFF_FF03 => f64::NEG_INFINITY,
        _ => x,
    }
}
/// JSON has no non-finite numbers
fn map_floats(p: &mut Plan, f: fn(f64) -> f64) {
    let each = |v: &mut [f64]| v.iter_mut().for_each(|x| *x = f(*x));
    for c in &mut p.clients {
        for o in &mut c.ops {
            match o {
                Op::Set { what, .. } => match what {
                    Setter::Collision(v) | Setter::K(v) | Setter::EE(v) => each(v),
                    Setter::JointImp(v) => each(v),
                    Setter::CartImp(v) => each(v),
                    Setter::Filters(v) => each(v),
                    Setter::Load(m, x, i) => {
                        *m = f(*m);
                        each(x);
                        each(i);
                    }
                    Setter::Guiding(..) => {}
                },
                Op::Motion(m) => m.cutoff = m.cutoff.map(f),
                Op::JointMotion { speed, goal, .. } => {
                    *speed = f(*speed);
                    each(goal);
                }
                Op::GMove { w, s, .. } => {
                    *w = f(*w);
                    *s = f(*s);
                }
                Op::GGrasp { w, s, f: g, ei, eo, .. } => {
                    *w = f(*w);
                    *s = f(*s);
                    *g = f(*g);
                    *ei = ei.map(f);
                    *eo = eo.map(f);
                }
                _ => {}
            }
        }
    }
}
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    violation: String,
    seed: u64,
    trace: String,
    how: String,
    plan: Plan,
    log: Vec<String>,
}

// ------------------------------------------------------------------ known findings
#[derive(Deserialize, Default)]
struct Known {
    #[serde(default)]
    known: Vec<KnownEntry>,
}
#[derive(Deserialize, Clone)]
struct KnownEntry {
    property: String,
    #[serde(rename = "match")]
    pat: String,
    what: String,
}
fn known() -> Known {
    let p = format!("{}/known_findings.json", root());
    std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default()
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// findings of a run that concern a property (all of them when the run died)
fn relevant(prop: &str, r: &Res, kn: &Known, hit: &mut HashSet<usize>) -> Vec<String> {
    match r {
        Res::Died(m) => vec![format!("the process using the library {}", m)],
        Res::Done(o) => o
            .findings
            .iter()
            .filter(|f| f.tags.iter().any(|t| t == prop))
            .filter(|f| {
                for (i, k) in kn.known.iter().enumerate() {
                    if k.property == prop && f.msg.contains(&k.pat) {
                        hit.insert(i);
                        return false;
                    }
                }
                true
            })
            .map(|f| f.msg.clone())
            .collect(),
    }
}

// ------------------------------------------------------------------ workers
#[derive(Serialize, Deserialize)]
struct Line {
    i: u64,
    seed: u64,
    fam: String,
    out: RunOut,
    died: Option<String>,
}
pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(base ^ 0x5EED);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    h3(h, 1, i) >> 12
}
struct Agg {
    runs: u64,
    sim_ns: u128,
    steps: u64,
    faults: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    subj: u64,
    nontrivial: HashSet<u64>,
    traces: HashSet<u64>,
    orders: HashSet<u64>,
    fams: BTreeMap<String, u64>,
    ncb: u64,
    ncmd: u64,
    nreq: u64,
    narr: u64,
    faulted: u64,
    probes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    tol: f64,
    jm: f64,
    harness: Vec<String>,
}
fn search(prop: &str, base: u64, runs: u64, secs: f64, jobs: u64, mut each: impl FnMut(&Line) -> bool) {
    let t0 = Instant::now();
    let (r, w) = pipe();
    let mut pids = vec![];
    for j in 0..jobs {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::close(r);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let mut i = j;
            while i < runs && t0.elapsed().as_secs_f64() < secs {
                let seed = run_seed(base, prop, i);
                let plan = gen::generate(prop, seed);
                let fam = plan.family.clone();
                let l = match forked(&plan, false, true) {
                    Res::Done(out) => Line { i, seed, fam, out: *out, died: None },
                    Res::Died(m) => Line { i, seed, fam, out: RunOut::default(), died: Some(m) },
                };
                let mut b = serde_json::to_vec(&l).unwrap();
                b.push(b'\n');
                // lines of several workers share the pipe: hold a lock while writing
                unsafe {
                    libc::lockf(LOCKFD, libc::F_LOCK, 0);
                    write_all(w, &b);
                    libc::lockf(LOCKFD, libc::F_ULOCK, 0);
                }
                i += jobs;
            }
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    unsafe { libc::close(w) };
    let f = unsafe { std::fs::File::from_raw_fd(r) };
    for line in std::io::BufReader::new(f).lines() {
        let Ok(line) = line else { break };
        let Ok(l) = serde_json::from_str::<Line>(&line) else { continue };
        if !each(&l) {
            break;
        }
    }
    for p in &pids {
        unsafe { libc::kill(*p, libc::SIGKILL) };
    }
    for p in &pids {
        let mut st = 0;
        unsafe { libc::waitpid(*p, &mut st, 0) };
    }
}
static mut LOCKFD: i32 = -1;
fn mklock() {
    unsafe {
        LOCKFD = libc::memfd_create(c"lock".as_ptr(), 0);
    }
}
impl Agg {
    fn new() -> Agg {
        Agg {
            runs: 0,
            sim_ns: 0,
            steps: 0,
            faults: Default::default(),
            ops: Default::default(),
            subj: 0,
            nontrivial: Default::default(),
            traces: Default::default(),
            orders: Default::default(),
            fams: Default::default(),
            ncb: 0,
            ncmd: 0,
            nreq: 0,
            narr: 0,
            faulted: 0,
            probes: Default::default(),
            samples: vec![],
            tol: 0.,
            jm: 0.,
            harness: vec![],
        }
    }
    fn add(&mut self, prop: &str, l: &Line) {
        let o = &l.out;
        self.runs += 1;
        self.sim_ns += o.now as u128;
        self.steps += o.steps;
        for (k, _, _) in &o.fired {
            *self.faults.entry(format!("{:?}", k)).or_insert(0) += 1;
        }
        if !o.fired.is_empty() {
            self.faulted += 1;
        }
        for (k, v) in &o.ops {
            *self.ops.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        self.traces.insert(o.trace);
        self.orders.insert(o.order);
        let s = o.subj.get(prop).copied().unwrap_or(0);
        self.subj += s;
        if s > 0 {
            self.nontrivial.insert(o.trace);
        }
        *self.fams.entry(l.fam.clone()).or_insert(0) += 1;
        self.ncb += o.ncb;
        self.ncmd += o.ncmd;
        self.nreq += o.nreq;
        self.narr += o.narr;
        self.tol = self.tol.max(o.tol);
        self.jm = self.jm.max(o.jm);
        if s > 0 && self.samples.len() < 5 {
            let p = gen::generate(prop, l.seed);
            let ops: Vec<String> = p
                .clients
                .iter()
                .enumerate()
                .flat_map(|(c, x)| x.ops.iter().map(move |o| format!("client {}: {}", c, crate::client::brief(o))))
                .take(12)
                .collect();
            let mut fk: BTreeMap<String, u64> = BTreeMap::new();
            for (k, _, _) in &o.fired {
                *fk.entry(format!("{:?}", k)).or_insert(0) += 1;
            }
            self.samples.push(json!({
                "seed": l.seed, "family": l.fam, "operations": ops, "outcomes": o.ops, "faults": fk,
                "timeline": p.timeline.iter().map(|t| format!("{:?} -> {:?}", t.trig, t.act)).collect::<Vec<_>>(),
                "simulated_ms": o.now / 1_000_000, "trace": format!("{:016x}", o.trace),
            }));
        }
        if let Some(h) = &o.harness {
            self.harness.push(format!("seed {}: {}", l.seed, h));
        }
    }
}

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

/// franka-sim check PROP --tier T --seed N --runs N --secs S
pub fn check(a: &[String]) -> i32 {
    mklock();
    let t0 = Instant::now();
    let Some(prop) = a.first().cloned() else { return 2 };
    let tier = opt(a, "--tier").unwrap_or("quick").to_string();
    let seed: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs: u64 = opt(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(4000);
    let secs: f64 = opt(a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(60.);
    let jobs: u64 = opt(a, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let kn = known();
    let mut hit = HashSet::new();
    let mut agg = Agg::new();
    let mut viol: Option<(u64, String)> = None;
    search(&prop, seed, runs, secs, jobs, |l| {
        agg.add(&prop, l);
        let r = match &l.died {
            Some(m) => Res::Died(m.clone()),
            None => Res::Done(Box::new(l.out.clone())),
        };
        let v = relevant(&prop, &r, &kn, &mut hit);
        if let Some(m) = v.first() {
            viol = Some((l.seed, m.clone()));
            return false;
        }
        agg.harness.len() < 3
    });
    let search_s = t0.elapsed().as_secs_f64();
    // the same seed must give the same execution: spot check
    let mut redo = 0;
    let mut differ = vec![];
    if viol.is_none() {
        for i in 0..6u64 {
            let s = run_seed(seed, &prop, i * 7);
            let p = gen::generate(&prop, s);
            if let (Res::Done(x), Res::Done(y)) = (forked(&p, false, true), forked(&p, false, true)) {
                redo += 1;
                if x.trace != y.trace || x.order != y.order || x.now != y.now {
                    differ.push(s);
                }
            }
        }
    }
    let mut replay = None;
    if let Some((s, m)) = &viol {
        let plan = gen::generate(&prop, *s);
        let (plan, msg, trace, log) = minimise(&prop, plan, m, &kn);
        let dir = format!("{}/replay", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, prop, s);
        let mut p2 = plan;
        map_floats(&mut p2, sent);
        let rp = Replay {
            property: prop.clone(),
            violation: msg.clone(),
            seed: *s,
            trace: format!("{:016x}", trace),
            how: format!("bash {}/check.sh replay {}", root(), path),
            plan: p2,
            log,
        };
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap());
        println!("violation: {}", msg);
        replay = Some(path);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": "each case is one simulated run: the seed picks the workload, configuration, schedule and faults; a run is non-trivial when it contains at least one event the property speaks about (see subject_events); runs are distinct when their full event traces (every system call, delivery, timer, fault, callback, in order and time) hash differently",
            "samples": agg.samples,
            "subject_events": agg.subj,
            "runs_per_hour": (agg.runs as f64 / search_s.max(1e-9) * 3600.).round(),
            "simulated_seconds": agg.sim_ns as f64 / 1e9,
            "simulated_steps": agg.steps,
            "distinct_traces": agg.traces.len(),
            "distinct_interleavings": agg.orders.len(),
            "interleaving_measure": "hash of the order of events without their times",
            "runs_with_faults": agg.faulted,
            "faults_injected": agg.faults,
            "workload_families": agg.fams,
            "operation_outcomes": agg.ops,
            "callbacks": agg.ncb, "command_datagrams": agg.ncmd, "requests": agg.nreq, "state_datagrams_arrived": agg.narr,
            "reached": agg.probes,
            "max_pose_deviation_from_reference": agg.tol,
            "max_joint_motion_goal_error": agg.jm,
            "replayed_for_determinism": redo,
            "nondeterministic": differ,
            "real_code": ["libfranka-rs: network, robot, control loop, rate limiting, filter, logger, gripper, model, downloader", "mio, std::net, std::fs, std::time, bincode, nalgebra, libloading's callers"],
            "stubbed": ["robot and hand (reference model of the FCI peers)", "kernel: sockets, epoll, DNS, clock, files, scheduling class, memory locking", "the downloaded model library (deterministic stand-in functions behind dlopen/dlsym)"],
        },
        "assumptions": [
            "the simulated kernel behaves like Linux for the calls the library makes",
            "the simulated robot and hand follow the published Franka Control Interface",
            "the search samples schedules and faults; it does not enumerate them"
        ],
        "wall_s": wall,
        "violations": viol.is_some() as i32,
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap());
    for i in &hit {
        println!("KNOWN-FINDING: property={} {}", prop, kn.known[*i].what);
    }
    println!(
        "{}: {} runs, {} non-trivial distinct, {:.1} simulated s, {} faults, {:.1} s",
        prop,
        agg.runs,
        agg.nontrivial.len(),
        agg.sim_ns as f64 / 1e9,
        agg.faults.values().sum::<u64>(),
        wall
    );
    if let Some(p) = replay {
        println!("VIOLATION property={} replay={}", prop, p);
        return 1;
    }
    for h in &agg.harness {
        eprintln!("harness: {}", h);
    }
    if !agg.harness.is_empty() {
        return 2;
    }
    if !differ.is_empty() {
        eprintln!("harness: runs of seeds {:?} are not repeatable", differ);
        return 2;
    }
    if agg.runs == 0 || agg.nontrivial.is_empty() {
        eprintln!("harness: nothing explored");
        return 2;
    }
    0
}

// ------------------------------------------------------------------ minimisation
fn shape(m: &str) -> String {
    m.chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}
fn minimise(prop: &str, plan: Plan, msg: &str, kn: &Known) -> (Plan, String, u64, Vec<String>) {
    let t0 = Instant::now();
    let budget = 40.;
    let mut hit = HashSet::new();
    let mut fails = |p: &Plan| -> Option<(String, RunOut)> {
        let r = forked(p, false, true);
        let v = relevant(prop, &r, kn, &mut hit);
        let m = v.first()?.clone();
        Some((m, match r {
            Res::Done(o) => *o,
            Res::Died(_) => RunOut::default(),
        }))
    };
    let mut best = plan.clone();
    let mut bmsg = msg.to_string();
    // 1. freeze the faults
    if let Some((m, o)) = fails(&best) {
        bmsg = m;
        if !o.end.is_empty() {
            let mut p = best.clone();
            p.explicit = Some(o.fired.clone());
            if let Some((m, _)) = fails(&p) {
                best = p;
                bmsg = m;
            }
        }
    }
    let over = || t0.elapsed().as_secs_f64() > budget;
    // 2. faults, in halves, quarters, ...
    if let Some(mut ex) = best.explicit.clone() {
        let mut n = 1;
        while !ex.is_empty() && !over() {
            let len = ex.len();
            let size = (len / n).max(1);
            let mut k = 0;
            let mut cut = false;
            while k < ex.len() && !over() {
                let mut e2 = ex.clone();
                e2.drain(k..(k + size).min(e2.len()));
                let mut p = best.clone();
                p.explicit = Some(e2.clone());
                if let Some((m, _)) = fails(&p) {
                    ex = e2;
                    best = p;
                    bmsg = m;
                    cut = true;
                } else {
                    k += size;
                }
            }
            if size == 1 && !cut {
                break;
            }
            n = if cut && size > 1 { n } else { n * 2 };
            if n > 4 * len.max(1) {
                break;
            }
        }
    }
    // 3. timed events
    let mut k = 0;
    while k < best.timeline.len() && !over() {
        let mut p = best.clone();
        p.timeline.remove(k);
        if let Some((m, _)) = fails(&p) {
            best = p;
            bmsg = m;
        } else {
            k += 1;
        }
    }
    // 4. operations: cut the tail, then blank out what is left
    for c in 0..best.clients.len() {
        while best.clients[c].ops.len() > 1 && !over() {
            let mut p = best.clone();
            p.clients[c].ops.pop();
            match fails(&p) {
                Some((m, _)) => {
                    best = p;
                    bmsg = m;
                }
                None => break,
            }
        }
        for i in 0..best.clients[c].ops.len() {
            if over() || matches!(best.clients[c].ops[i], Op::Sleep { ns: 0 }) {
                continue;
            }
            let mut p = best.clone();
            p.clients[c].ops[i] = Op::Sleep { ns: 0 };
            if let Some((m, _)) = fails(&p) {
                best = p;
                bmsg = m;
            }
        }
        // 5. shorter reads and motions
        for i in 0..best.clients[c].ops.len() {
            loop {
                if over() {
                    break;
                }
                let mut p = best.clone();
                let ok = match &mut p.clients[c].ops[i] {
                    Op::Read { n, .. } if *n > 1 => {
                        *n /= 2;
                        true
                    }
                    Op::Motion(m) if m.n > 1 => {
                        m.n /= 2;
                        true
                    }
                    _ => false,
                };
                if !ok {
                    break;
                }
                match fails(&p) {
                    Some((m, _)) => {
                        best = p;
                        bmsg = m;
                    }
                    None => break,
                }
            }
        }
    }
    let (trace, log) = match forked(&best, true, true) {
        Res::Done(o) => {
            let l = o.log.unwrap_or_default();
            let n = l.len();
            (o.trace, if n > 400 { l[n - 400..].to_vec() } else { l })
        }
        Res::Died(_) => (0, vec![]),
    };
    (best, bmsg, trace, log)
}

/// franka-sim replay FILE [-v]
pub fn replay(a: &[String]) -> i32 {
    let Some(path) = a.first() else { return 2 };
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let mut rp: Replay = match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("bad replay file: {}", e);
            return 2;
        }
    };
    map_floats(&mut rp.plan, unsent);
    let verbose = a.iter().any(|x| x == "-v");
    let r = forked(&rp.plan, true, true);
    let mut hit = HashSet::new();
    let v = relevant(&rp.property, &r, &Known::default(), &mut hit);
    if let Res::Done(o) = &r {
        if verbose {
            for l in o.log.as_deref().unwrap_or(&[]) {
                println!("{}", l);
            }
        }
        println!("trace {:016x}, recorded {}", o.trace, rp.trace);
    }
    for m in &v {
        println!("violation: {}", m);
    }
    if v.is_empty() {
        println!("not reproduced: {}", rp.violation);
        return 0;
    }
    println!("VIOLATION property={} replay={}", rp.property, path);
    1
}

/// franka-sim run PROP SEED [-v]: one run, everything printed
pub fn one(a: &[String]) -> i32 {
    let (Some(prop), Some(seed)) = (a.first(), a.get(1).and_then(|s| s.parse().ok())) else { return 2 };
    let p = gen::generate(prop, seed);
    let v = a.iter().any(|x| x == "-v");
    if a.iter().any(|x| x == "-p") {
        println!("{:#?}", p);
    }
    match forked(&p, v, false) {
        Res::Died(m) => println!("DIED {}", m),
        Res::Done(o) => {
            for l in o.log.as_deref().unwrap_or(&[]) {
                println!("{}", l);
            }
            println!("family {} end {} now {} ms steps {} trace {:016x} harness {:?}", p.family, o.end, o.now / 1_000_000, o.steps, o.trace, o.harness);
            println!("ops {:?}", o.ops);
            for f in &o.findings {
                println!("FINDING {:?} {}", f.tags, f.msg);
            }
        }
    }
    0
}
/// franka-sim sweep PROP --seed N --runs N --secs S: every finding of any property, grouped
pub fn sweep(a: &[String]) -> i32 {
    mklock();
    let Some(prop) = a.first().cloned() else { return 2 };
    let seed: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs: u64 = opt(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(1000);
    let secs: f64 = opt(a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(60.);
    let t0 = Instant::now();
    let mut agg = Agg::new();
    let mut groups: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut died = vec![];
    let mut slow: Vec<(u64, u64, String)> = vec![];
    search(&prop, seed, runs, secs, 8, |l| {
        agg.add(&prop, l);
        slow.push((l.out.steps, l.seed, l.fam.clone()));
        if let Some(m) = &l.died {
            died.push((l.seed, m.clone()));
        }
        for f in &l.out.findings {
            let Finding { tags, msg } = f;
            let s = msg.find(": ").map(|k| &msg[k..]).unwrap_or(msg);
            let e = groups.entry(format!("{:?} {}", tags, shape(s))).or_insert((0, l.seed, msg.clone()));
            e.0 += 1;
        }
        true
    });
    for (_, (n, s, m)) in &groups {
        println!("{:6} seed {} {}", n, s, m);
    }
    for (k, _) in groups.iter() {
        println!("   group {}", k);
    }
    println!("died {:?}", &died[..died.len().min(5)]);
    println!("harness {:?}", &agg.harness[..agg.harness.len().min(5)]);
    slow.sort();
    slow.reverse();
    println!("slowest {:?}", &slow[..slow.len().min(4)]);
    println!("ops {:?}", agg.ops);
    println!("faults {:?}", agg.faults);
    println!("probes {:?}", agg.probes);
    println!(
        "{} {} runs in {:.1} s, sim {:.1} s, steps {}, nontrivial {}, subj {}, orders {}, tol {:e} jm {:e}",
        prop,
        agg.runs,
        t0.elapsed().as_secs_f64(),
        agg.sim_ns as f64 / 1e9,
        agg.steps,
        agg.nontrivial.len(),
        agg.subj,
        agg.orders.len(),
        agg.tol,
        agg.jm
    );
    0
}
/// franka-sim determinism [runs]: every property, each seed twice
pub fn determinism(a: &[String]) -> i32 {
    let n: u64 = a.first().and_then(|s| s.parse().ok()).unwrap_or(20);
    let mut bad = 0;
    let mut tot = 0;
    for p in gen::PROPS {
        for i in 0..n {
            let s = run_seed(99, p, i);
            let pl = gen::generate(p, s);
            if let (Res::Done(x), Res::Done(y)) = (forked(&pl, false, true), forked(&pl, true, true)) {
                tot += 1;
                let fx: Vec<&String> = x.findings.iter().map(|f| &f.msg).collect();
                let fy: Vec<&String> = y.findings.iter().map(|f| &f.msg).collect();
                if x.trace != y.trace || x.order != y.order || x.now != y.now || x.fired != y.fired || fx != fy {
                    bad += 1;
                    println!("{} seed {} differs", p, s);
                }
                // and replaying the recorded faults explicitly gives the same run
                let mut e = pl.clone();
                e.explicit = Some(x.fired.clone());
                if let Res::Done(z) = forked(&e, false, true) {
                    if z.trace != x.trace {
                        bad += 1;
                        println!("{} seed {}: explicit replay differs", p, s);
                    }
                }
            }
        }
    }
    println!("{} pairs, {} different", tot, bad);
    (bad > 0) as i32
}
