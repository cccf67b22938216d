//! A plan is everything that decides a run: configuration, workload, scripted behaviour of the
//! peers, fault rates (search) or an explicit fault list (replay). It is what a replay file holds.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FK {
    StDrop,
    StBurst,
    StDup,
    StDelay,
    StRunt,
    CmdDrop,
    CmdDup,
    CmdDelay,
    TcpSeg,
    TcpHold,
    TcpDelay,
    ReqDelay,
    Eintr,
    Spurious,
    ShortWrite,
    ShortRead,
    Stall,
    SendErr,
    DiskShort,
    DiskEnospc,
    DiskEio,
    DiskOpenErr,
    DiskUnlinkErr,
    DiskRenameErr,
    DiskCrash,
    StMove,
}
pub const ALL_FK: &[FK] = &[
    FK::StDrop, FK::StBurst, FK::StDup, FK::StDelay, FK::StRunt, FK::CmdDrop, FK::CmdDup, FK::CmdDelay,
    FK::TcpSeg, FK::TcpHold, FK::TcpDelay, FK::ReqDelay, FK::Eintr, FK::Spurious, FK::ShortWrite,
    FK::ShortRead, FK::Stall, FK::SendErr, FK::DiskShort, FK::DiskEnospc, FK::DiskEio, FK::DiskOpenErr,
    FK::DiskUnlinkErr, FK::DiskRenameErr, FK::DiskCrash, FK::StMove,
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cfg {
    pub cost_min: u64,
    pub cost_max: u64,
    pub lat_min: u64,
    pub lat_max: u64,
    pub tcp_lat_min: u64,
    pub tcp_lat_max: u64,
    pub port_base: u16,
    pub rcvbuf: usize, // datagrams
    pub fault_from: u64,
    pub fault_until: u64,
    pub delay_max: u64, // extra delay of delayed datagrams
    pub stall_max: u64,
    pub deadline: u64, // virtual time at which an unfinished run counts as hung
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            cost_min: 500,
            cost_max: 8_000,
            lat_min: 20_000,
            lat_max: 200_000,
            tcp_lat_min: 30_000,
            tcp_lat_max: 400_000,
            port_base: 40000,
            rcvbuf: 64,
            fault_from: 0,
            fault_until: u64::MAX,
            delay_max: 6_000_000,
            stall_max: 20_000_000,
            deadline: 60_000_000_000,
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ServerCfg {
    pub gripper: bool,
    pub ip: [u8; 4],
    pub host: String,
    pub dns: u8,       // 0 resolves, otherwise EAI error number
    pub listening: u8, // 0 listening, 1 refused, 2 unreachable, 3 blackholed
    pub version: u16,
    pub connect_status: u16,
    pub id0: u64,
    pub period: u64,
    pub tick_jitter: u64,
    pub send_states: bool,
    pub first_state_delay: u64,
    pub lost_limit: u32, // abort after that many consecutive missing commands (0: never)
    pub blob_len: usize,
    pub udp_port: u16,
    pub errors: u64,
    pub zero_mass: u8,
    pub gravity_mode: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RtCfg {
    pub kernel: bool,
    pub priomax_fail: bool,
    pub sched_fail: bool,
    pub mlock_fail: bool,
}
impl Default for RtCfg {
    fn default() -> Self {
        RtCfg { kernel: true, priomax_fail: false, sched_fail: false, mlock_fail: false }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Work {
    pub base: u64,
    pub jitter: u64,
    pub spike_every: u32,
    pub spike: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Resp {
    pub status: u16,
    pub delay: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Setter {
    Collision(Vec<f64>), // 4*7 + 4*6
    JointImp([f64; 7]),
    CartImp([f64; 6]),
    Guiding([bool; 6], bool),
    K(Vec<f64>),
    EE(Vec<f64>),
    Load(f64, [f64; 3], [f64; 9]),
    Filters([f64; 5]),
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum MK {
    JP,
    JV,
    CP,
    CV,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Abort {
    pub after_ticks: u32, // ticks after the motion runs (or starts, if before_run)
    pub status: u8,
    pub resp_delay: i64, // response relative to the tick that shows the abort (may be negative)
    pub robot_mode: u8,
    pub reflex: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StopScript {
    pub status: u8,
    pub delay: u64,
    pub idle_ticks: u32,     // ticks until the robot reports idle after a stop of a running motion
    pub move_resp: u8,       // 0 none, 1 before the stop answer, 2 after it, 3 late
    pub move_resp_delay: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Script {
    pub reject: Option<u8>,
    pub resp_delay: u64,
    pub mode_ticks: u32,           // ticks from accepting to the running state
    pub start_abort: Option<Abort>, // abort before the mode switches
    pub abort: Option<Abort>,
    pub finish_ticks: u32, // ticks from the finish flag to idle
    pub finish_status: u8,
    pub finish_resp_delay: i64,
    pub stop: StopScript,
    /// how the state changes when the motion runs or is over: the parts (1 motion generator,
    /// 2 controller, 4 robot mode) that already show it (early) or still show it (late), and for
    /// how many cycles
    #[serde(default)]
    pub early: (u8, u32),
    #[serde(default)]
    pub late: (u8, u32),
}
impl Default for Script {
    fn default() -> Self {
        Script {
            reject: None,
            resp_delay: 100_000,
            mode_ticks: 3,
            start_abort: None,
            abort: None,
            finish_ticks: 4,
            finish_status: 0,
            finish_resp_delay: 100_000,
            stop: StopScript { status: 0, delay: 200_000, idle_ticks: 2, move_resp: 2, move_resp_delay: 300_000 },
            early: (0, 0),
            late: (0, 0),
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Invalid {
    pub at: u32,
    pub kind: u8, // 0 NaN 1 +inf 2 -inf 3 not-a-transform 4 bad elbow sign
    pub comp: u8,
    pub in_torque: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MotionOp {
    pub kind: MK,
    pub torque: bool,      // a torque callback runs as well
    pub pure_torque: bool, // control_torques
    pub ctrl: Option<u8>,
    pub limit: Option<bool>,
    pub cutoff: Option<f64>,
    pub n: u32, // the n-th cycle finishes (1-based)
    pub finish_by_torque: bool,
    pub prof: u8,
    pub amp: f64,
    pub pseed: u64,
    pub elbow: u8, // 0 never 1 always 2 sometimes
    pub invalid: Option<Invalid>,
    pub work: Work,
    pub model: bool, // evaluate the loaded model on the states
    pub script: Script,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Connect { srv: usize, by_name: bool, enforce: Option<bool>, log_size: Option<usize> },
    Disconnect,
    ReadOnce,
    Read { n: u32, work: Work },
    Set { what: Setter, resp: Resp },
    SetDefault { resps: [Resp; 3] },
    Recovery { resp: Resp },
    Stop { resp: Resp },
    Wall { id: i32, resp: Resp, content: u64 },
    Motion(MotionOp),
    JointMotion { speed: f64, goal: [f64; 7], script: Script },
    LoadModel { persistent: bool, resp: Resp },
    EvalModel { n: u32, gseed: u64 },
    ServerVersion,
    Sleep { ns: u64 },
    Rt(RtCfg),
    Foreign { srv: usize, mg: u8, cm: u8, mode: u8 },
    GRead,
    GHoming { resp: Resp },
    GMove { w: f64, s: f64, resp: Resp },
    GGrasp { w: f64, s: f64, f: f64, ei: Option<f64>, eo: Option<f64>, resp: Resp },
    GStop { resp: Resp },
    GVersion,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ClientPlan {
    pub start: u64,
    pub after: Option<usize>,
    pub rt: RtCfg,
    pub ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Trig {
    At(u64),
    /// when the n-th TCP request of the client is received by its peer
    Req { client: usize, n: u32 },
    /// when the n-th callback of the client is entered
    Cb { client: usize, n: u32 },
    /// when op n of the client starts, plus a delay
    OpStart { client: usize, op: usize, delay: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act {
    Fin { srv: usize },
    Rst { srv: usize },
    Blackhole { srv: usize, dur: u64 }, // dur 0: for ever
    Silence { srv: usize, dur: u64 },   // no state datagrams
    Restart { srv: usize, dur: u64 },
    CutResp { srv: usize, bytes: u32, rst: bool },
    WallJump { delta: i64 },
    Listen { srv: usize, mode: u8 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Timed {
    pub trig: Trig,
    pub act: Act,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub property: String,
    pub family: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub servers: Vec<ServerCfg>,
    pub clients: Vec<ClientPlan>,
    pub timeline: Vec<Timed>,
    pub disk_init: u8, // 0 empty, 1 a complete model file of server 0 is there
    pub rates: Vec<(FK, f64)>,
    pub explicit: Option<Vec<(FK, u64, u64)>>,
}
