//! What a run records for the oracles.
use crate::wire::*;

#[derive(Clone, Debug)]
pub struct View {
    // a RobotState as the user saw it, flattened to wire order
    pub f: Box<[f64; NF]>,
    pub m_total: f64,
    pub i_total: [f64; 9],
    pub fx_total: [f64; 3],
    pub errors: Vec<usize>,
    pub last_errors: Vec<usize>,
    pub mode: u8,
    pub rate: f64,
    pub time_ns: u128,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LogRow {
    pub q: [f64; 7],
    pub dq: [f64; 7],
    pub pose: [f64; 16],
    pub twist: [f64; 6],
    pub tau: [f64; 7],
}
#[derive(Clone, Debug)]
pub enum ErrK {
    Control { log: Option<Vec<(View, LogRow)>> },
    Incompatible { server: u16, lib: u16 },
    NoMotionGen,
    NoController,
    Partial,
    Network,
    Command,
    Model,
    RealTime,
}
impl ErrK {
    pub fn name(&self) -> &'static str {
        match self {
            ErrK::Control { .. } => "ControlException",
            ErrK::Incompatible { .. } => "IncompatibleLibraryVersionError",
            ErrK::NoMotionGen => "NoMotionGeneratorRunningError",
            ErrK::NoController => "NoControllerRunningError",
            ErrK::Partial => "PartialCommandError",
            ErrK::Network => "NetworkException",
            ErrK::Command => "CommandException",
            ErrK::Model => "ModelException",
            ErrK::RealTime => "RealTimeException",
        }
    }
}
#[derive(Clone, Debug)]
pub struct Wall {
    pub id: i32,
    pub size: [f64; 3],
    pub frame: [f64; 16],
    pub active: bool,
}
#[derive(Clone, Debug)]
pub enum Val {
    Unit,
    Bool(bool),
    State(Box<View>),
    Grip { width: f64, max_width: f64, grasped: bool, temp: u16, time_ns: u128 },
    Wall(Box<Wall>),
    Version(u16),
    Eval(Vec<String>), // mismatches found while evaluating the model
}
#[derive(Clone, Debug)]
pub enum Outcome {
    Skipped,
    Ok(Val),
    Err(ErrK, String),
    Panic(String),
    Hang,
    Crashed,
}
impl Outcome {
    pub fn short(&self) -> String {
        match self {
            Outcome::Skipped => "skipped".into(),
            Outcome::Ok(v) => match v {
                Val::Bool(b) => format!("Ok({})", b),
                Val::Version(v) => format!("Ok(version {})", v),
                Val::State(v) => format!("Ok(state t={}ms)", v.time_ns / 1_000_000),
                Val::Grip { time_ns, .. } => format!("Ok(grip t={}ms)", time_ns / 1_000_000),
                _ => "Ok".into(),
            },
            Outcome::Err(k, m) => format!("Err({}: {})", k.name(), m),
            Outcome::Panic(m) => format!("PANIC({})", m),
            Outcome::Hang => "HANG".into(),
            Outcome::Crashed => "crashed (injected)".into(),
        }
    }
}
#[derive(Clone, Debug)]
pub struct OpRec {
    pub client: usize,
    pub op: usize,
    pub conn: Option<usize>, // connection in use at the end of the op
    pub t0: u64,
    pub s0: u64,
    pub t1: u64,
    pub s1: u64,
    pub out: Outcome,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CbKind {
    Read,
    Motion,
    Torque,
}
#[derive(Clone, Debug)]
pub enum CbOut {
    None,
    Q([f64; 7]),
    Dq([f64; 7]),
    Pose([f64; 16], Option<[f64; 2]>),
    Twist([f64; 6], Option<[f64; 2]>),
    Tau([f64; 7]),
}
#[derive(Clone, Debug)]
pub struct CbRec {
    pub client: usize,
    pub op: usize,
    pub conn: usize,
    pub kind: CbKind,
    pub t0: u64,
    pub s0: u64,
    pub t1: u64,
    pub s1: u64,
    pub view: Box<View>,
    pub dt_ns: Option<u128>,
    pub out: CbOut,
    pub fin: bool,
    pub invalid: bool,
}
#[derive(Clone, Debug)]
pub struct CmdRec {
    pub client: usize,
    pub op: Option<usize>,
    pub t: u64,
    pub s: u64,
    pub srv: Option<usize>, // None: destination is not a robot
    pub to_ok: bool,        // destination is the source address of the robot's states
    pub failed: bool,       // injected send error
    pub cmd: Option<WireCmd>,
    pub len: usize,
    pub raw: Vec<u8>,
    pub port: u16,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EndKind {
    Finish,
    Abort,
    StartAbort,
    Stop,
    LostCmd,
    Disconnect,
}
#[derive(Clone, Debug)]
pub struct MotionEnd {
    pub t: u64,
    pub id: u64, // first state that shows the motion over
    pub kind: EndKind,
    pub status: u8,
    pub reflex: u64,
}
/// ground truth about one accepted or rejected motion request
#[derive(Clone, Debug)]
pub struct MotionRec {
    pub client: usize,
    pub op: usize,
    pub conn: usize,
    pub srv: usize,
    pub req_id: u32,
    pub t_req: u64,
    pub t_first: u64, // when the first answer leaves the robot
    pub mg: u8,
    pub cm: u8,
    pub rejected: Option<u8>,
    pub run: Option<(u64, u64)>, // time, id of the first state that shows it running
    pub fin_seen: Option<u64>,   // when the robot took the end-of-motion announcement
    pub end: Option<MotionEnd>,
    pub final_resp: Option<(u64, u8)>, // when the final answer left the robot, its status
}
#[derive(Clone, Debug)]
pub struct ReqRec {
    pub client: usize,
    pub op: Option<usize>, // the call that sent it
    pub conn: usize,
    pub srv: usize,
    pub t: u64,
    pub s: u64,
    pub req: Request,
}
#[derive(Clone, Debug)]
pub struct RespRec {
    pub conn: usize,
    pub srv: usize,
    pub cmd: u32,
    pub id: u32,
    pub payload: Vec<u8>,
    pub t_sent: u64,
    pub t_full: Option<u64>,
    pub s_full: u64,
}
#[derive(Clone, Debug)]
pub struct ArrRec {
    pub t: u64,
    pub s: u64,
    pub client: usize,
    pub sock: usize,
    pub srv: usize,
    pub id: u64,
    pub runt: bool,
    pub queued: bool,
}
#[derive(Clone, Debug)]
pub enum NetEv {
    Connected { conn: usize, client: usize, srv: usize, sock_port: u16 },
    Loss { conn: usize },          // loss visible at the client socket
    LinkDown { srv: usize },
    LinkUp { srv: usize },
    ServerGone { conn: usize },
    Handshake { conn: usize, status: u16, version: u16 },
    ClientClosed { conn: usize },
}
#[derive(Clone, Debug)]
pub enum RtEv {
    KernelCheck(bool),
    PrioMax(i32),
    Sched { policy: i32, prio: i32, ok: bool },
    Mlock { flags: i32, ok: bool },
}
#[derive(Clone, Debug)]
pub enum DiskEv {
    Open { path: String, create: bool, ok: bool },
    Write { path: String, n: usize, ok: bool },
    Rename { from: String, to: String, ok: bool },
    Unlink { path: String, ok: bool },
    Dlopen { path: String, good: bool, srv: i32 },
    Crash,
}
#[derive(Default)]
pub struct Hist {
    pub ops: Vec<OpRec>,
    pub cbs: Vec<CbRec>,
    pub cmds: Vec<CmdRec>,
    pub reqs: Vec<ReqRec>,
    pub resps: Vec<RespRec>,
    pub arrivals: Vec<ArrRec>,
    pub states: Vec<Vec<WireState>>, // per server, ids increasing
    pub motions: Vec<MotionRec>,
    pub grips: Vec<Vec<WireGrip>>,
    pub net: Vec<(u64, u64, NetEv)>,
    pub rt: Vec<(u64, u64, usize, RtEv)>, // t, s, client
    pub disk: Vec<(u64, u64, usize, DiskEv)>,
    pub model_file_after: Vec<(usize, usize, i8)>, // client, op, -1 absent 0 damaged 1 complete
    pub senderr: Vec<(u64, usize)>,
    pub eval_n: u64,
    pub eval_bad: Vec<(usize, usize, String)>,
}
impl Hist {
    pub fn state(&self, srv: usize, id: u64) -> Option<&WireState> {
        let v = self.states.get(srv)?;
        v.binary_search_by(|s| s.id.cmp(&id)).ok().map(|i| &v[i])
    }
}
