//! Independent implementation of the FCI wire formats (little endian, packed).
pub const NF: usize = 284;
pub const O_T_EE: usize = 0;
pub const O_T_EE_D: usize = 16;
pub const F_T_EE: usize = 32;
pub const EE_T_K: usize = 48;
pub const F_T_NE: usize = 64;
pub const NE_T_EE: usize = 80;
pub const M_EE: usize = 96;
pub const I_EE: usize = 97;
pub const F_X_CEE: usize = 106;
pub const M_LOAD: usize = 109;
pub const I_LOAD: usize = 110;
pub const F_X_CLOAD: usize = 119;
pub const ELBOW: usize = 122;
pub const ELBOW_D: usize = 124;
pub const TAU_J: usize = 126;
pub const TAU_J_D: usize = 133;
pub const DTAU_J: usize = 140;
pub const Q: usize = 147;
pub const Q_D: usize = 154;
pub const DQ: usize = 161;
pub const DQ_D: usize = 168;
pub const DDQ_D: usize = 175;
pub const JOINT_CONTACT: usize = 182;
pub const CART_CONTACT: usize = 189;
pub const JOINT_COLL: usize = 195;
pub const CART_COLL: usize = 202;
pub const TAU_EXT: usize = 208;
pub const O_F_EXT: usize = 215;
pub const K_F_EXT: usize = 221;
pub const O_DP_EE_D: usize = 227;
pub const O_DDP_O: usize = 233;
pub const ELBOW_C: usize = 236;
pub const DELBOW_C: usize = 238;
pub const DDELBOW_C: usize = 240;
pub const O_T_EE_C: usize = 242;
pub const O_DP_EE_C: usize = 258;
pub const O_DDP_EE_C: usize = 264;
pub const THETA: usize = 270;
pub const DTHETA: usize = 277;

pub const FIELDS: &[(&str, usize, usize)] = &[
    ("O_T_EE", O_T_EE, 16), ("O_T_EE_d", O_T_EE_D, 16), ("F_T_EE", F_T_EE, 16), ("EE_T_K", EE_T_K, 16),
    ("F_T_NE", F_T_NE, 16), ("NE_T_EE", NE_T_EE, 16), ("m_ee", M_EE, 1), ("I_ee", I_EE, 9),
    ("F_x_Cee", F_X_CEE, 3), ("m_load", M_LOAD, 1), ("I_load", I_LOAD, 9), ("F_x_Cload", F_X_CLOAD, 3),
    ("elbow", ELBOW, 2), ("elbow_d", ELBOW_D, 2), ("tau_J", TAU_J, 7), ("tau_J_d", TAU_J_D, 7),
    ("dtau_J", DTAU_J, 7), ("q", Q, 7), ("q_d", Q_D, 7), ("dq", DQ, 7), ("dq_d", DQ_D, 7),
    ("ddq_d", DDQ_D, 7), ("joint_contact", JOINT_CONTACT, 7), ("cartesian_contact", CART_CONTACT, 6),
    ("joint_collision", JOINT_COLL, 7), ("cartesian_collision", CART_COLL, 6),
    ("tau_ext_hat_filtered", TAU_EXT, 7), ("O_F_ext_hat_K", O_F_EXT, 6), ("K_F_ext_hat_K", K_F_EXT, 6),
    ("O_dP_EE_d", O_DP_EE_D, 6), ("O_ddP_O", O_DDP_O, 3), ("elbow_c", ELBOW_C, 2),
    ("delbow_c", DELBOW_C, 2), ("ddelbow_c", DDELBOW_C, 2), ("O_T_EE_c", O_T_EE_C, 16),
    ("O_dP_EE_c", O_DP_EE_C, 6), ("O_ddP_EE_c", O_DDP_EE_C, 6), ("theta", THETA, 7), ("dtheta", DTHETA, 7),
];
pub fn field_name(i: usize) -> String {
    for (n, o, l) in FIELDS {
        if i >= *o && i < o + l {
            return format!("{}[{}]", n, i - o);
        }
    }
    format!("field {}", i)
}

pub const ERROR_NAMES: [&str; 41] = [
    "JointPositionLimitsViolation", "CartesianPositionLimitsViolation", "SelfCollisionAvoidanceViolation",
    "JointVelocityViolation", "CartesianVelocityViolation", "ForceControlSafetyViolation", "JointReflex",
    "CartesianReflex", "MaxGoalPoseDeviationViolation", "MaxPathPoseDeviationViolation",
    "CartesianVelocityProfileSafetyViolation", "JointPositionMotionGeneratorStartPoseInvalid",
    "JointMotionGeneratorPositionLimitsViolation", "JointMotionGeneratorVelocityLimitsViolation",
    "JointMotionGeneratorVelocityDiscontinuity", "JointMotionGeneratorAccelerationDiscontinuity",
    "CartesianPositionMotionGeneratorStartPoseInvalid", "CartesianMotionGeneratorElbowLimitViolation",
    "CartesianMotionGeneratorVelocityLimitsViolation", "CartesianMotionGeneratorVelocityDiscontinuity",
    "CartesianMotionGeneratorAccelerationDiscontinuity", "CartesianMotionGeneratorElbowSignInconsistent",
    "CartesianMotionGeneratorStartElbowInvalid", "ForceControllerDesiredForceToleranceViolation",
    "StartElbowSignInconsistent", "CommunicationConstraintsViolation", "PowerLimitViolation",
    "CartesianMotionGeneratorJointPositionLimitsViolation", "CartesianMotionGeneratorJointVelocityLimitsViolation",
    "CartesianMotionGeneratorJointVelocityDiscontinuity", "CartesianMotionGeneratorJointAccelerationDiscontinuity",
    "CartesianPositionMotionGeneratorInvalidFrame", "ControllerTorqueDiscontinuity",
    "JointP2PInsufficientTorqueForPlanning", "TauJRangeViolation", "InstabilityDetection",
    "JointMoveInWrongDirection", "CartesianSplineViolation", "JointViaPlanLimitViolation",
    "BaseAccelerationInitializationTimeout", "BaseAccelerationInvalidReading",
];

// motion generator modes in the state message
pub const MG_IDLE: u8 = 0;
// controller modes in the state message
pub const CM_JOINT_IMP: u8 = 0;
pub const CM_CART_IMP: u8 = 1;
pub const CM_EXTERNAL: u8 = 2;
pub const CM_OTHER: u8 = 3;
// robot modes
pub const RM_OTHER: u8 = 0;
pub const RM_IDLE: u8 = 1;
pub const RM_MOVE: u8 = 2;
pub const RM_GUIDING: u8 = 3;
pub const RM_REFLEX: u8 = 4;
pub const RM_USERSTOP: u8 = 5;
pub const RM_RECOVERY: u8 = 6;

#[derive(Clone)]
pub struct WireState {
    pub id: u64,
    pub f: Box<[f64; NF]>,
    pub mg: u8,
    pub cm: u8,
    pub errors: u64, // 41-bit mask
    pub reflex: u64,
    pub mode: u8,
    pub rate: f64,
}
pub const STATE_LEN: usize = 8 + NF * 8 + 2 + 82 + 1 + 8;
impl WireState {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(STATE_LEN);
        v.extend_from_slice(&self.id.to_le_bytes());
        for x in self.f.iter() {
            v.extend_from_slice(&x.to_bits().to_le_bytes());
        }
        v.push(self.mg);
        v.push(self.cm);
        for i in 0..41 {
            v.push((self.errors >> i & 1) as u8);
        }
        for i in 0..41 {
            v.push((self.reflex >> i & 1) as u8);
        }
        v.push(self.mode);
        v.extend_from_slice(&self.rate.to_bits().to_le_bytes());
        v
    }
    pub fn arr<const N: usize>(&self, off: usize) -> [f64; N] {
        let mut a = [0.; N];
        a.copy_from_slice(&self.f[off..off + N]);
        a
    }
}

#[derive(Clone, Debug)]
pub struct WireCmd {
    pub id: u64,
    pub q: [f64; 7],
    pub dq: [f64; 7],
    pub pose: [f64; 16],
    pub twist: [f64; 6],
    pub elbow: [f64; 2],
    pub valid_elbow: u8,
    pub finished: u8,
    pub tau: [f64; 7],
}
pub const CMD_LEN: usize = 8 + 8 * (7 + 7 + 16 + 6 + 2) + 2 + 56;
pub fn rd_u32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
pub fn rd_u16(b: &[u8]) -> u16 {
    u16::from_le_bytes([b[0], b[1]])
}
pub fn rd_u64(b: &[u8]) -> u64 {
    let mut a = [0; 8];
    a.copy_from_slice(&b[..8]);
    u64::from_le_bytes(a)
}
pub fn rd_f64(b: &[u8]) -> f64 {
    f64::from_bits(rd_u64(b))
}
pub fn rd_arr<const N: usize>(b: &[u8], off: &mut usize) -> [f64; N] {
    let mut a = [0.; N];
    for x in a.iter_mut() {
        *x = rd_f64(&b[*off..]);
        *off += 8;
    }
    a
}
impl WireCmd {
    pub fn decode(b: &[u8]) -> Option<WireCmd> {
        if b.len() != CMD_LEN {
            return None;
        }
        let mut o = 8;
        let id = rd_u64(b);
        let q = rd_arr::<7>(b, &mut o);
        let dq = rd_arr::<7>(b, &mut o);
        let pose = rd_arr::<16>(b, &mut o);
        let twist = rd_arr::<6>(b, &mut o);
        let elbow = rd_arr::<2>(b, &mut o);
        let valid_elbow = b[o];
        let finished = b[o + 1];
        o += 2;
        let tau = rd_arr::<7>(b, &mut o);
        Some(WireCmd { id, q, dq, pose, twist, elbow, valid_elbow, finished, tau })
    }
}

// robot commands
pub const RC_CONNECT: u32 = 0;
pub const RC_MOVE: u32 = 1;
pub const RC_STOP: u32 = 2;
pub const RC_GETLIM: u32 = 3;
pub const RC_COLL: u32 = 4;
pub const RC_JIMP: u32 = 5;
pub const RC_CIMP: u32 = 6;
pub const RC_GUIDE: u32 = 7;
pub const RC_EETOK: u32 = 8;
pub const RC_NETOEE: u32 = 9;
pub const RC_LOAD: u32 = 10;
pub const RC_FILTERS: u32 = 11;
pub const RC_RECOVERY: u32 = 12;
pub const RC_MODEL: u32 = 13;
// move statuses
pub const MS_SUCCESS: u8 = 0;
pub const MS_STARTED: u8 = 1;
pub const MS_PREEMPTED: u8 = 2;
pub const MS_NOTPOSSIBLE: u8 = 3;
pub const MS_SINGULAR: u8 = 4;
pub const MS_INVALIDARG: u8 = 5;
pub const MS_REFLEX: u8 = 6;
pub const MS_EMERGENCY: u8 = 7;
pub const MS_INPUT: u8 = 8;
pub const MS_ABORTED: u8 = 9;

/// (header, payload) of a request; robot header 12 bytes, gripper header 10 bytes
#[derive(Clone, Debug)]
pub struct Request {
    pub cmd: u32,
    pub id: u32,
    pub size: u32,
    pub payload: Vec<u8>,
}
pub fn parse_request(buf: &[u8], gripper: bool) -> Option<(Request, usize)> {
    let hl = if gripper { 10 } else { 12 };
    if buf.len() < hl {
        return None;
    }
    let (cmd, id, size) = if gripper {
        (rd_u16(buf) as u32, rd_u32(&buf[2..]), rd_u32(&buf[6..]))
    } else {
        (rd_u32(buf), rd_u32(&buf[4..]), rd_u32(&buf[8..]))
    };
    let sz = size as usize;
    if sz < hl || sz > 1 << 20 {
        // malformed: hand back everything so the oracle can complain
        return Some((Request { cmd, id, size, payload: buf[hl..].to_vec() }, buf.len()));
    }
    if buf.len() < sz {
        return None;
    }
    Some((Request { cmd, id, size, payload: buf[hl..sz].to_vec() }, sz))
}
pub fn response(gripper: bool, cmd: u32, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    if gripper {
        v.extend_from_slice(&(cmd as u16).to_le_bytes());
        v.extend_from_slice(&id.to_le_bytes());
        v.extend_from_slice(&((10 + payload.len()) as u32).to_le_bytes());
    } else {
        v.extend_from_slice(&cmd.to_le_bytes());
        v.extend_from_slice(&id.to_le_bytes());
        v.extend_from_slice(&((12 + payload.len()) as u32).to_le_bytes());
    }
    v.extend_from_slice(payload);
    v
}
pub fn le(xs: &[f64]) -> Vec<u8> {
    xs.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct WireGrip {
    pub id: u32,
    pub width: f64,
    pub max_width: f64,
    pub grasped: u8,
    pub temp: u16,
}
pub const GRIP_LEN: usize = 4 + 8 + 8 + 1 + 2;
impl WireGrip {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(GRIP_LEN);
        v.extend_from_slice(&self.id.to_le_bytes());
        v.extend_from_slice(&self.width.to_bits().to_le_bytes());
        v.extend_from_slice(&self.max_width.to_bits().to_le_bytes());
        v.push(self.grasped);
        v.extend_from_slice(&self.temp.to_le_bytes());
        v
    }
}
