BUGS=[]
def bug(id,property,needs,breaks,edits,main,extra=()):
    BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,main=main,extra=extra))
RI='src/robot/robot_impl.rs'; CL='src/robot/control_loop.rs'; CT='src/robot/control_types.rs'; RL='src/robot/rate_limiting.rs'

bug('c01-stale-buffered','C01',
 'a duplicated or late state datagram that is already queued when the next read begins',
 'a read hands out a state that was already handed out before',
 [(RI,'                    None => self.message_id,\n','                    None => 0,\n')],
r'''
fn main() {
    let times = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.req();
        m.send(); // the network duplicates the last state
        m.send();
        std::thread::sleep(std::time::Duration::from_millis(100));
        m.reply(&r, &[0]);
        std::thread::sleep(std::time::Duration::from_millis(300));
        for _ in 0..50 { m.tick(); std::thread::sleep(std::time::Duration::from_millis(5)); }
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.set_K(identity()).unwrap();
        let mut t = vec![101u128];
        robot.read(|s| { t.push(s.time.as_millis()); t.len() < 5 }).unwrap();
        t
    }).unwrap_or_else(|| fail("no result"));
    println!("{:?}", times);
    if times.windows(2).all(|w| w[1] > w[0]) { pass() } else { fail("a state was delivered twice") }
}
''')

bug('c02-time-wraps','C02',
 'a robot that has been on for more than 2^32 ms',
 'the time in the robot state is not the one of the datagram',
 [('src/robot/robot_state.rs','        let time = Duration::from_millis(robot_state.message_id);\n',
   '        let time = Duration::from_millis((robot_state.message_id as u32).into());\n')],
r'''
fn main() {
    let t = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.s.id = (1 << 32) + 500;
        for _ in 0..100 { m.tick(); std::thread::sleep(std::time::Duration::from_millis(5)); }
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.read_once().unwrap().time.as_millis()
    }).unwrap_or_else(|| fail("no result"));
    if t > 1 << 32 { pass() } else { fail(&format!("time is {}", t)) }
}
''')

bug('c03-bounded-drain','C03',
 'more than 16 robot states queued when a read begins',
 'the user is handed an outdated state although newer ones have arrived',
 [(RI,'        while received_state.is_some() {\n','        let mut budget = 16;\n        while received_state.is_some() && budget > 0 {\n            budget -= 1;\n')],
r'''
fn main() {
    let t = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.req();
        for _ in 0..30 { m.tick(); }
        std::thread::sleep(std::time::Duration::from_millis(200));
        m.reply(&r, &[0]);
        std::thread::sleep(std::time::Duration::from_millis(300));
        m.tick();
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.set_K(identity()).unwrap();
        let mut t = 0;
        robot.read(|s| { t = s.time.as_millis(); false }).unwrap();
        t
    }).unwrap_or_else(|| fail("no result"));
    if t >= 131 { pass() } else { fail(&format!("state {} delivered, 131 was there", t)) }
}
''')

bug('c05-nominal-clock','C05',
 'a motion with a torque controller and a lost robot state',
 'after a loss the elapsed time no longer is the difference of the robot times',
 [(CL,'''                &mut control_command,
            ) {
                previous_time = robot_state.time;
''','''                &mut control_command,
            ) {
                if previous_time != robot_state.time {
                    previous_time += Duration::from_millis(1);
                }
''')],
r'''
fn main() {
    let steps = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        for i in 0..12 {
            if i == 5 { m.s.id += 3; }
            if m.next_cmd().finished != 0 { break; }
        }
        loop { let c = m.next_cmd(); if c.finished != 0 { break; } }
        m.end_motion(&r);
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        let mut steps = vec![];
        robot.control_torques(|s: &RobotState, d: &std::time::Duration| {
            steps.push((s.time.as_millis() as u64, d.as_millis() as u64));
            let mut t = Torques::new([0.; 7]);
            if steps.len() >= 20 { t.set_motion_finished(true); }
            t
        }, None, None).unwrap();
        steps
    }).unwrap_or_else(|| fail("no result"));
    for w in steps.windows(2) {
        if w[1].1 != w[1].0 - w[0].0 { fail(&format!("{:?}", w)) }
    }
    pass()
}
''')

bug('c06-backwards-braking','C06',
 'a joint velocity command far beyond the limit in negative direction, held for many cycles',
 'the limiter does not brake at the negative velocity limit',
 [(RL,'        (max_jerk / max_acceleration) * (-max_velocity - last_commanded_velocity),\n',
      '        (max_jerk / max_acceleration) * (-max_velocity - last_commanded_velocity.abs()),\n')],
r'''
fn main() {
    demo(100, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        for _ in 0..2000 {
            let c = m.next_cmd();
            for i in 0..7 {
                if c.dq[i] < -2.7 { fail(&format!("joint {} commanded to move at {}", i, c.dq[i])); }
                let a = (c.dq[i] - m.s.f[DQ_D + i]) / 1e-3;
                m.s.f[DQ_D + i] = c.dq[i];
                m.s.f[DDQ_D + i] = a;
            }
            if c.finished != 0 { break; }
        }
        m.end_motion(&r);
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        let mut n = 0;
        robot.control_joint_velocities(|_: &RobotState, _: &std::time::Duration| {
            n += 1;
            let mut v = JointVelocities::new([-5.; 7]);
            if n >= 1500 { v.set_motion_finished(true); }
            v
        }, None, true, 1000.).unwrap();
    }).unwrap_or_else(|| fail("no result"));
    pass()
}
''')

bug('c07-filter-reference','C07',
 'a Cartesian velocity motion with filtering on and a desired twist that differs from the last commanded one',
 'the low-pass filter starts from the wrong reference',
 [(CT,'''                    command.O_dP_EE_c[i],
                    robot_state.O_dP_EE_c[i],
''','''                    command.O_dP_EE_c[i],
                    robot_state.O_dP_EE_d[i],
''')],
r'''
fn main() {
    demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        for i in 0..6 { m.s.f[O_DP_EE_C + i] = 0.01; m.s.f[O_DP_EE_D + i] = 0.02; }
        let g = 1e-3 / (1e-3 + 1. / (2. * std::f64::consts::PI * 100.));
        loop {
            let c = m.next_cmd();
            for i in 0..6 {
                let want = g * 0.05 + (1. - g) * 0.01;
                if (c.twist[i] - want).abs() > 1e-12 { fail(&format!("{} instead of {}", c.twist[i], want)); }
            }
            if c.finished != 0 { break; }
        }
        m.end_motion(&r);
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        let mut n = 0;
        robot.control_cartesian_velocities(|_: &RobotState, _: &std::time::Duration| {
            n += 1;
            let mut v = CartesianVelocities::new([0.05; 6], None);
            if n >= 5 { v.set_motion_finished(true); }
            v
        }, None, false, 100.).unwrap();
    }).unwrap_or_else(|| fail("no result"));
    pass()
}
''')

bug('c08-elbow-sign','C08',
 'a callback that returns an elbow with a sign component such as 2',
 'an invalid elbow reaches the robot',
 [(CT,'        elbow[1].abs() == 1.\n','        elbow[1].abs() >= 1.\n')],
r'''
fn main() {
    demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let _r = m.begin_motion();
        for _ in 0..200 {
            m.tick();
            if let Some(c) = m.cmd(5) {
                if c.valid_elbow != 0 && c.elbow[1].abs() != 1. { fail(&format!("elbow {:?} on the wire", c.elbow)); }
            }
        }
        pass()
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        let mut n = 0;
        let _ = robot.control_cartesian_pose(|s: &RobotState, _: &std::time::Duration| {
            n += 1;
            CartesianPose::new(s.O_T_EE_c, Some([0., if n > 5 { 2. } else { -1. }]))
        }, None, false, 1000.);
    });
    std::thread::sleep(std::time::Duration::from_secs(5));
    fail("no verdict")
}
''')

bug('c09-announced-once','C09',
 'the datagram that announces the end of the motion is lost',
 'the end of the motion is announced only once, so that a loss leaves the robot waiting for ever',
 [(RI,'        motion_finished_command.motion_generation_finished = true;\n        let mut robot_state = None;\n',
      '        let mut announced = false;\n        let mut robot_state = None;\n'),
  (RI,'            robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);\n',
      '            motion_finished_command.motion_generation_finished = !announced;\n            announced = true;\n            robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);\n')],
r'''
fn main() {
    let ok = demo(20, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        let mut seen = 0;
        loop {
            let c = m.next_cmd();
            if c.finished != 0 { seen += 1; }
            if seen == 3 { break; } // the first two get lost
        }
        m.end_motion(&r);
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        let mut n = 0;
        robot.control_joint_positions(|s: &RobotState, _: &std::time::Duration| {
            n += 1;
            let mut v = JointPositions::new(s.q_d);
            if n >= 5 { v.set_motion_finished(true); }
            v
        }, None, None, None).is_ok()
    });
    if ok == Some(true) { pass() } else { fail("the motion does not end") }
}
''')

bug('c10-wrong-reasons','C10',
 'a reflex whose reasons are no longer among the current errors in the state that shows the abort',
 'the control exception lists the current errors instead of the reflex reasons',
 [(RI,'''                Err(error) => Err(create_control_exception(
                    error.to_string(),
                    &response.status,
                    &robot_state.last_motion_errors,
''','''                Err(error) => Err(create_control_exception(
                    error.to_string(),
                    &response.status,
                    &robot_state.current_errors,
''')],
r'''
fn main() {
    let e = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        for _ in 0..5 { m.next_cmd(); }
        m.idle();
        m.s.mode = RM_REFLEX;
        m.s.reflex = 1 << 7;
        m.s.errors = 1 << 25;
        m.reply(&r, &[MS_REFLEX]);
        m.tick();
        let s = m.req();
        m.reply(&s, &[0]);
        for _ in 0..50 { m.tick(); std::thread::sleep(std::time::Duration::from_millis(5)); }
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        match robot.control_joint_positions(|s: &RobotState, _: &std::time::Duration| JointPositions::new(s.q_d), None, None, None) {
            Err(franka::exception::FrankaException::ControlException { error, .. }) => error,
            o => format!("{:?}", o.is_ok()),
        }
    }).unwrap_or_else(|| fail("no result"));
    println!("{}", e);
    if e.to_lowercase().contains("reflex") && !e.to_lowercase().contains("communication") { pass() } else { fail("wrong reasons") }
}
''')

bug('c11-last-record-lost','C11',
 'a motion aborted by the robot: the state after the last command no longer shows the move mode',
 'the log lacks the last command and the state that shows the abort',
 [(RI,'        if let Some(command) = robot_command {\n','        if let (Some(command), RobotMode::Move) = (robot_command, state.robot_mode) {\n')],
r'''
fn main() {
    let log = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        for _ in 0..8 { m.next_cmd(); }
        m.idle();
        m.s.mode = RM_REFLEX;
        m.reply(&r, &[MS_REFLEX]);
        m.s.id = 5000 - 1;
        m.tick();
        let s = m.req();
        m.reply(&s, &[0]);
        for _ in 0..50 { m.tick(); std::thread::sleep(std::time::Duration::from_millis(5)); }
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, 5).unwrap();
        match robot.control_joint_positions(|s: &RobotState, _: &std::time::Duration| JointPositions::new(s.q_d), None, None, None) {
            Err(franka::exception::FrankaException::ControlException { log, .. }) => log.unwrap().iter().map(|r| r.state.time.as_millis()).collect::<Vec<_>>(),
            _ => vec![],
        }
    }).unwrap_or_else(|| fail("no result"));
    println!("{:?}", log);
    if log.len() == 5 && log[4] == 5000 { pass() } else { fail("the last record is missing") }
}
''')

bug('c13-id-reuse','C13',
 'more than 256 requests on one robot connection',
 'a request identifier is used again',
 [('src/network.rs','''        let header = RobotCommandHeader::new(command, self.command_id, size as u32);
        self.command_id += 1;
''','''        let header = RobotCommandHeader::new(command, self.command_id, size as u32);
        self.command_id = u32::from((self.command_id as u8).wrapping_add(1));
''')],
r'''
fn main() {
    let ids = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let ids2 = ids.clone();
    demo(100, move |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        while let Some(r) = m.try_req() { ids2.lock().unwrap().push(r.id); m.reply(&r, &[0]); }
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        for _ in 0..600 { robot.set_K(identity()).unwrap(); }
    }).unwrap_or_else(|| fail("no result"));
    let mut v = ids.lock().unwrap().clone();
    let n = v.len();
    v.sort();
    v.dedup();
    if v.len() == n { pass() } else { fail("identifier used twice") }
}
''')

bug('c14-patient','C14',
 'the robot stops sending states while the connection stays up',
 'a read goes on waiting although the state timeout has passed many times',
 [(RI,'            received_state = Some(self.network.udp_blocking_receive()?);\n            if received_state.unwrap().message_id > self.message_id {\n',
      '            received_state = match self.network.udp_blocking_receive() {\n                Ok(state) => Some(state),\n                Err(_) if self.motion_generator_mode == Some(MotionGeneratorMode::Idle) => continue,\n                Err(e) => return Err(e),\n            };\n            if received_state.unwrap().message_id > self.message_id {\n')],
r'''
fn main() {
    let r = demo(20, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.read_once().is_err()
    });
    if r == Some(true) { pass() } else { fail("no error in 20 s") }
}
''')

bug('c15-gripper-version','C15',
 'a hand that answers the connect request with a status other than success or fail',
 'a connection is reported as established although the peer did not accept the version',
 [('src/gripper.rs','''        match connect_response.status {
            Status::Success => {
''','''        match connect_response.status {
            Status::Success | Status::Unsuccessful => {
''')],
r'''
use std::io::{Read, Write};
fn main() {
    let r = demo(20, |l| {
        let (mut tcp, _) = l.accept().unwrap();
        let mut b = [0; 14];
        tcp.read_exact(&mut b).unwrap();
        let (r, _) = parse_request(&b, true).unwrap();
        tcp.write_all(&response(true, 0, r.id, &[2, 0, 9, 0])).unwrap();
        let _ = tcp.read(&mut b);
    }, true, |ip| Gripper::new(&ip).is_ok());
    if r == Some(false) { pass() } else { fail("connected to an incompatible hand") }
}
''')

bug('c16-outer-tolerance','C16',
 'a grasp with the inner tolerance given and the outer one left out',
 'the default of the outer tolerance is not the documented one',
 [('src/gripper.rs','        let epsilon_outer = epsilon_outer.unwrap_or(0.005);\n','        let epsilon_outer = epsilon_outer.unwrap_or(epsilon_inner);\n')],
r'''
fn main() {
    demo(20, |l| {
        let mut m = Mock::accept(&l, true);
        let r = m.req();
        if r.payload != le(&[0.02, 0.1, 0.005, 0.03, 40.]) { fail(&format!("grasp asks for {:?}", r.payload)); }
        m.reply(&r, &[0, 0]);
        m.try_req();
    }, true, |ip| {
        let mut g = Gripper::new(&ip).unwrap();
        g.grasp(0.02, 0.03, 40., Some(0.1), None).unwrap()
    }).unwrap_or_else(|| fail("no result"));
    pass()
}
''')

bug('c17-half-drained','C17',
 'more than one hand state queued when the read begins',
 'a hand state from before the call is returned',
 [('src/gripper.rs','        while self.network.udp_receive::<GripperStateIntern>().is_some() {}\n',
   '        if self.network.udp_receive::<GripperStateIntern>().is_some() {}\n')],
r'''
fn main() {
    let w = demo(30, |l| {
        let mut m = Mock::accept(&l, true);
        let r = m.req();
        for i in 0..5 { m.g.width = 0.001 * i as f64; m.tick(); }
        std::thread::sleep(std::time::Duration::from_millis(200));
        m.reply(&r, &[0, 0]);
        std::thread::sleep(std::time::Duration::from_millis(300));
        m.g.width = 0.05;
        m.tick();
        m.try_req();
    }, true, |ip| {
        let mut g = Gripper::new(&ip).unwrap();
        g.stop().unwrap();
        g.read_once().unwrap().width
    }).unwrap_or_else(|| fail("no result"));
    if w == 0.05 { pass() } else { fail(&format!("width {}", w)) }
}
''')

bug('c23-small-step','C23',
 'a joint motion in which one joint has to move by a tiny angle only',
 'a joint with a small distance to go is left where it is although success is reported',
 [('src/utils.rs','    const DELTA_Q_MOTION_FINISHED: f64 = 1e-6;\n','    const DELTA_Q_MOTION_FINISHED: f64 = 1e-3;\n')],
r'''
fn main() {
    let r = demo(100, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        loop {
            let c = m.next_cmd();
            for i in 0..7 {
                let v = (c.q[i] - m.s.f[Q_D + i]) / 1e-3;
                m.s.f[DDQ_D + i] = (v - m.s.f[DQ_D + i]) / 1e-3;
                m.s.f[DQ_D + i] = v;
                m.s.f[Q_D + i] = c.q[i];
            }
            if c.finished != 0 { break; }
        }
        if (m.s.f[Q_D + 6] - 5e-4).abs() > 1e-5 { fail(&format!("joint 7 ends at {}", m.s.f[Q_D + 6])); }
        m.end_motion(&r);
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.joint_motion(0.9, &[0.1, 0.1, 0., 0.1, 0., 0.1, 5e-4]).is_ok()
    });
    if r == Some(true) { pass() } else { fail("no success") }
}
''')

bug('c04-skip-late','C04',
 'a torque motion in which more than 20 robot states in a row are lost',
 'the control cycle after the loss runs the callbacks but puts no command on the wire',
 [(CL,'''                robot_state = self
                    .robot
                    .update(Some(&motion_command), Some(&control_command))?;
''','''                robot_state = if outdated {
                    self.robot.update(None, None)?
                } else {
                    self.robot
                        .update(Some(&motion_command), Some(&control_command))?
                };
'''),(CL,'''                &mut control_command,
            ) {
                previous_time = robot_state.time;
''','''                &mut control_command,
            ) {
                let outdated = robot_state.time - previous_time > Duration::from_millis(20);
                previous_time = robot_state.time;
''')],
r'''
fn main() {
    demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        m.next_cmd();
        m.next_cmd();
        m.s.id += 30;
        m.tick();
        if m.cmd(300).is_none() { fail("the state after the loss is not answered"); }
        loop { let c = m.next_cmd(); if c.finished != 0 { break; } }
        m.end_motion(&r);
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        let mut n = 0;
        robot.control_torques(|_: &RobotState, _: &std::time::Duration| {
            n += 1;
            let mut t = Torques::new([0.; 7]);
            if n >= 6 { t.set_motion_finished(true); }
            t
        }, None, None).unwrap();
    }).unwrap_or_else(|| fail("no result"));
    pass()
}
''')

bug('c12-best-effort','C12',
 'the robot refuses the second of the three requests that make up the default behaviour',
 'the call reports success although the robot reported a failure',
 [('src/robot.rs','        self.set_joint_impedance([3000., 3000., 3000., 2500., 2500., 2000., 2000.])?;\n        self.set_cartesian_impedance([3000., 3000., 3000., 300., 300., 300.])?;\n        Ok(())\n',
 '        let joint = self.set_joint_impedance([3000., 3000., 3000., 2500., 2500., 2000., 2000.]);\n        self.set_cartesian_impedance([3000., 3000., 3000., 300., 300., 300.])\n            .or(joint)\n')],
r'''
fn main() {
    let ok = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.req(); m.reply(&r, &[0]);
        let r = m.req(); m.reply(&r, &[1]);
        if let Some(r) = m.poll_req(500) { m.reply(&r, &[0]); }
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.set_default_behavior().is_ok()
    }).unwrap_or_else(|| fail("no result"));
    if ok { fail("success although the robot refused a request") }
    pass()
}
''')

bug('c18-word-copy','C18',
 'a model library whose size is not a multiple of eight bytes',
 'the stored model lacks its last bytes, and loading it is reported as a success',
 [('src/network.rs','        buffer.append(&mut Vec::from(\n            &response_bytes[size_of::<LoadModelLibraryResponse>()..],\n        ));\n',
 '        for word in response_bytes[size_of::<LoadModelLibraryResponse>()..].chunks_exact(8) {\n            buffer.extend_from_slice(word);\n        }\n')],
r'''
fn main() {
    let mut blob = std::fs::read(std::env::var("DEMO_MODEL").unwrap()).unwrap();
    while blob.len() % 8 != 5 { blob.push(b'x'); }
    let n = blob.len();
    let b2 = blob.clone();
    let ok = demo(60, move |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.req();
        let mut p = vec![0];
        p.extend_from_slice(&b2);
        m.reply(&r, &p);
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.load_model(true).is_ok()
    }).unwrap_or_else(|| fail("no result"));
    let f = format!("{}/model.so", std::env::var("DEMO_DIR").unwrap());
    let got = std::fs::read(f).unwrap_or_default();
    if ok && got != blob { fail(&format!("{} of {} bytes stored", got.len(), n)) }
    if !ok { fail("the model was not loaded") }
    pass()
}
''',('shim.c','model.c'))

bug('c19-nominal-effector','C19',
 'an end effector frame that differs from the nominal one',
 'the zero Jacobian of the end effector ignores the end effector frame in use',
 [('src/model.rs','''        self.zero_jacobian(
            frame,
            &robot_state.q,
            &robot_state.F_T_EE,
''','''        self.zero_jacobian(
            frame,
            &robot_state.q,
            &robot_state.F_T_NE,
''')],
r'''
fn main() {
    let blob = std::fs::read(std::env::var("DEMO_MODEL").unwrap()).unwrap();
    let j = demo(60, move |l| {
        let mut m = Mock::accept(&l, false);
        m.s.f[F_T_EE..F_T_EE + 16].copy_from_slice(&identity());
        m.s.f[F_T_NE..F_T_NE + 16].copy_from_slice(&identity());
        m.s.f[F_T_EE + 12] = 0.25;
        m.tick();
        let r = m.req();
        let mut p = vec![0];
        p.extend_from_slice(&blob);
        m.reply(&r, &p);
        for _ in 0..200 { m.tick(); std::thread::sleep(std::time::Duration::from_millis(5)); }
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        let model = robot.load_model(false).unwrap();
        let s = robot.read_once().unwrap();
        model.zero_jacobian_from_state(&Frame::EndEffector, &s)
    }).unwrap_or_else(|| fail("no result"));
    if j[12] != 0.25 { fail(&format!("computed for the wrong frame ({})", j[12])) }
    pass()
}
''',('shim.c','model.c'))

bug('c20-posix-error','C20',
 'a user without the right to use real-time scheduling',
 'an enforced real-time connection moves the robot from a thread without real-time priority',
 [('src/robot/control_tools.rs','        if libc::pthread_setschedparam(libc::pthread_self(), libc::SCHED_FIFO, &thread_param) != 0 {\n',
 '        if libc::pthread_setschedparam(libc::pthread_self(), libc::SCHED_FIFO, &thread_param) < 0 {\n')],
r'''
fn main() {
    std::fs::write(format!("{}/realtime", std::env::var("DEMO_DIR").unwrap()), "1\n").unwrap();
    std::env::set_var("DEMO_NO_RIGHTS", "1");
    let (rt, text) = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        if let Some(r) = m.poll_req(2000) {
            if r.cmd == RC_MOVE { fail("the robot was asked to move"); }
        }
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Enforce, None).unwrap();
        let r = robot.control_torques(|_: &RobotState, _: &std::time::Duration| {
            let mut t = Torques::new([0.; 7]);
            t.set_motion_finished(true);
            t
        }, None, None);
        (matches!(r, Err(exception::FrankaException::RealTimeException { .. })), format!("{:?}", r.err()))
    }).unwrap_or_else(|| fail("no result"));
    if !rt { fail(&text) }
    pass()
}
''',('shim.c',))

bug('c21-other-generator','C21',
 'another process moves the robot with an internal controller, so that only the motion generator shows it',
 'a motion is requested although the newest state shows the robot moving',
 [(RI,'''        self.read_once()?;
        if self.motion_generator_running() || self.controller_running() {
''','''        self.read_once()?;
        let idle = MotionGeneratorMode::Idle;
        if self.current_move_motion_generator_mode != idle || self.controller_running() {
''')],
r'''
fn main() {
    let ok = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.s.mode = RM_MOVE;
        m.s.cm = CM_JOINT_IMP;
        m.s.mg = 2;
        for _ in 0..300 {
            m.tick();
            if let Some(r) = m.poll_req(5) {
                if r.cmd == RC_MOVE { fail("a motion was requested while the robot moves"); }
            }
        }
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.read_once().unwrap();
        let r = robot.control_joint_velocities(|_: &RobotState, _: &std::time::Duration| {
            let mut v = JointVelocities::new([0.; 7]);
            v.set_motion_finished(true);
            v
        }, None, None, None);
        matches!(r, Err(exception::FrankaException::ControlException { .. }))
    }).unwrap_or_else(|| fail("no result"));
    if !ok { fail("no control exception") }
    pass()
}
''')

bug('c14-no-stop','C14',
 'a motion given up because the state stream stops while the connection itself stands',
 'the robot is not asked to stop when the library gives up a motion after a network error',
 [(CL,'''                self.robot.cancel_motion(self.motion_id);
                Err(error)
''','''                if let FrankaException::ControlException { .. } = error {
                    self.robot.cancel_motion(self.motion_id);
                }
                Err(error)
''')],
r'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    let r = demo(60, move |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let _ = m.begin_motion();
        for _ in 0..10 { m.next_cmd(); }
        // no more states; does a stop request arrive?
        match m.try_req() {
            Some(r) => {
                tx.send(r.cmd).unwrap();
                m.reply(&r, &[1]);
                m.try_req();
            }
            None => tx.send(999).unwrap(),
        }
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.control_joint_velocities(|_, _| JointVelocities::new([0.; 7]), None, None, None).is_err()
    });
    if r != Some(true) { fail("no error") }
    match rx.recv_timeout(std::time::Duration::from_secs(10)) {
        Ok(2) => pass(),
        x => fail(&format!("no stop request: {:?}", x)),
    }
}
''')

bug('c03-read-anew','C03',
 'a continuous reader that finds a newer state already waiting, with no further one to come for a while',
 'continuous reading throws away the newest state that has arrived and waits for yet another one',
 [('src/robot.rs','            let state = self.robimpl.update(None, None)?;\n','            let state = self.robimpl.read_once()?;\n')],
r'''
fn main() {
    let t = demo(60, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.req();
        m.tick(); // 102 waits for the reader
        std::thread::sleep(std::time::Duration::from_millis(200));
        m.reply(&r, &[0]);
        std::thread::sleep(std::time::Duration::from_millis(500));
        m.tick();
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.set_K(identity()).unwrap();
        let mut t = 0;
        robot.read(|s| { t = s.time.as_millis(); false }).unwrap();
        t
    }).unwrap_or_else(|| fail("no result"));
    if t == 102 { pass() } else { fail(&format!("state {} delivered, 102 was there", t)) }
}
''')

bug('c23-last-joint','C23',
 'a joint motion in which only the last joint has to move',
 'the joint motion ends at once and reports success although the last joint is not at its goal',
 [('src/utils.rs','        joint_motion_finished.iter().all(|i| *i)\n','        joint_motion_finished.iter().take(6).all(|i| *i)\n')],
r'''
fn main() {
    let r = demo(100, |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        loop {
            let c = m.next_cmd();
            for i in 0..7 {
                let v = (c.q[i] - m.s.f[Q_D + i]) / 1e-3;
                m.s.f[DDQ_D + i] = (v - m.s.f[DQ_D + i]) / 1e-3;
                m.s.f[DQ_D + i] = v;
                m.s.f[Q_D + i] = c.q[i];
            }
            if c.finished != 0 { break; }
        }
        if (m.s.f[Q_D + 6] - 0.1).abs() > 1e-5 { fail(&format!("joint 7 ends at {}", m.s.f[Q_D + 6])); }
        m.end_motion(&r);
        m.try_req();
    }, false, |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        robot.joint_motion(0.9, &[0., 0., 0., 0., 0., 0., 0.1]).is_ok()
    });
    if r == Some(true) { pass() } else { fail("no success") }
}
''')

bug('c07-perfect-frames','C07',
 'a Cartesian pose computed in single precision, orthonormal to about 1e-7',
 'a valid pose of the user is refused: the motion panics instead of sending it',
 [('src/robot/control_tools.rs','    const ORTHONORMAL_THRESHOLD: f64 = 1e-5;\n','    const ORTHONORMAL_THRESHOLD: f64 = 1e-8;\n')],
r'''
fn main() {
    let a = 0.3f32;
    let mut pose = identity();
    pose[0] = a.cos() as f64;
    pose[1] = a.sin() as f64;
    pose[4] = -a.sin() as f64;
    pose[5] = a.cos() as f64;
    pose[0] += 1e-7;
    let r = demo(60, move |l| {
        let mut m = Mock::accept(&l, false);
        m.tick();
        let r = m.begin_motion();
        for _ in 0..3 {
            let c = m.next_cmd();
            if c.pose[..] != pose[..] { fail("another pose is sent") }
        }
        loop {
            let c = m.next_cmd();
            if c.finished != 0 { break; }
        }
        m.end_motion(&r);
        m.try_req();
    }, false, move |ip| {
        let mut robot = Robot::new(&ip, RealtimeConfig::Ignore, None).unwrap();
        let mut n = 0;
        robot.control_cartesian_pose(|_, _| {
            n += 1;
            let mut c = CartesianPose::new(pose, None);
            if n > 5 { c.set_motion_finished(true); }
            c
        }, None, false, 1000.).is_ok()
    });
    if r == Some(true) { pass() } else { fail("the motion did not succeed") }
}
''')
