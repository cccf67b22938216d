#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line). Run by hand when the list changes."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

NET, RI, CL, RB = "src/network.rs", "src/robot/robot_impl.rs", "src/robot/control_loop.rs", "src/robot.rs"
CT, RL, LP = "src/robot/control_types.rs", "src/robot/rate_limiting.rs", "src/robot/low_pass_filter.rs"

prop("C01", "Robot states reach the user strictly in order, never stale or twice",
 "Within one robot connection, the robot states handed to the user (by continuous reading, one-shot reading and every control callback, in any mixture) carry strictly increasing robot time stamps, whatever the network does to the state datagrams. A state that is a duplicate of, or older than, the last one handed out is never delivered. As long as newer states keep arriving, each read still returns one.",
 ["schedules", "fault_sequences", "histories"],
 "every loss, duplication, reordering, delay and burst pattern on the state stream; every interleaving of arrivals with the receive path; every sequence of API calls on the connection",
 "The tests' mock server sends 20 states in order with nothing lost, duplicated or reordered; ordering under reordering and across calls is never sampled.",
 [NET, RI, RB], [("newest-id filter when receiving", RI+": receive_robot_state"), ("datagram receive", NET+": udp_receive, udp_blocking_receive")],
 ["RobotState.time passed to callbacks and returned by read_once", "order of datagrams at the client socket"])
prop("C02", "A delivered robot state is exactly one state the robot sent",
 "Every robot state handed to the user equals, field for field and bit for bit, one single state datagram sent by the robot, the one carrying its time stamp; values from two datagrams are never mixed, also when truncated datagrams arrive in between. Mass, centre of mass and inertia totals, the lists of current errors and of last motion errors, the robot mode and the time are those implied by that same datagram.",
 ["inputs", "schedules", "fault_sequences"],
 "every content of a state message and every pattern of buffered, truncated, duplicated and late datagrams around it",
 "Tests round-trip one constant dummy state in memory; field placement against the wire layout and mixing of buffered datagrams are not exercised.",
 [NET, "src/robot/robot_state.rs", "src/robot/types.rs", "src/robot/errors.rs", "src/robot/error.rs"],
 [("decode of the state message", "src/robot/types.rs: RobotStateIntern"), ("conversion to the public state", "src/robot/robot_state.rs: From<RobotStateIntern>")],
 ["public fields of the delivered RobotState against the datagram with that id"])
prop("C03", "The user always gets the freshest robot state already received",
 "A robot state handed to a callback is never older than any state that had already arrived at the client machine when the library began to wait for it, however many states are queued, and in continuous reading one that is newer than the last one handed out is not held back until another arrives. A one-shot read never returns a state that was already buffered before the call, so it always reflects the robot after the call was made.",
 ["schedules", "fault_sequences", "histories"],
 "every backlog produced by slow callbacks, client stalls, bursts, reordering and duplication, at every instant relative to the receive",
 "Tests never let a backlog form or reorder it, and cannot know what is queued in the socket at the time of the call.",
 [NET, RI], [("drain the queue and keep the newest", RI+": receive_robot_state"), ("drop the backlog before a one-shot read", RI+": read_once")],
 ["arrival instants at the client socket vs id of the delivered state"])
prop("C04", "Exactly one command per control cycle, answering the state just shown",
 "While a motion runs, each control cycle (the motion callback, plus the torque callback when there is one) puts exactly one command datagram on the wire, addressed to the sender of the robot states, after the callback and before the next one, carrying the time stamp of the state that the callback was given. As long as the states show the motion running, each new one that arrives is answered without delay, except the first, which only tells that the motion has started. No command datagram is sent before the motion has started, after it has ended or failed, or outside motions; only the command of the final cycle, and its repetitions until the robot reports the motion over, announce the end of the motion.",
 ["schedules", "fault_sequences", "programs", "histories"],
 "every control mode, callback behaviour and duration, state loss/reorder/duplication pattern, start and finish latency of the robot, and sequence of motions on one connection",
 "No test runs a control loop against a peer: the only motion test is rejected by the mock server before the first cycle.",
 [CL, RI, NET], [("send then receive", RI+": update, send_robot_command"), ("control cycle", CL+": do_loop"), ("finishing", RI+": finish_motion")],
 ["command datagrams at the simulated robot and callback log"])
prop("C05", "The elapsed time given to control callbacks is exact",
 "In every motion the first callback is told that zero time has elapsed, and every later callback is told exactly the difference between the robot time of its state and the robot time of the state of the preceding callback, so that the steps add up to the robot time covered even when states are lost. When motion and torque callbacks run in one cycle both get the same state and the same elapsed time.",
 ["schedules", "fault_sequences", "histories"],
 "every loss/reorder/duplication pattern on the state stream, every callback duration, every position of a motion within a session",
 "No test runs a control loop; gaps in the state stream never occur in tests.",
 [CL], [("previous_time bookkeeping", CL+": do_loop")], ["Duration and RobotState passed to callbacks"])
prop("C06", "With rate limiting on, commands on the wire respect the robot's limits",
 "With rate limiting enabled, for every user output and every history of a motion that starts at rest, the commanded joint positions and velocities, Cartesian poses and velocities, elbow and torques that reach the wire, taken relative to the robot's last commanded values as reported in the state being answered, stay within the robot's published velocity, acceleration, jerk and torque-rate limits (close to the velocity limit braking comes before the jerk limit), in whatever orientation the end effector is. Packet loss and late replies do not void these limits as long as the last commanded velocity the robot reports is itself below the limit by the limiter's margin of about one percent. This is about the command of every control cycle; the final command is merely repeated afterwards, and a final cycle whose torque callback no longer runs repeats the previous torque.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of user outputs (steps, saturating targets, noise), each with every loss/delay pattern that feeds back through the robot's last commanded values",
 "Unit tests check a few single limiter steps with hand-picked inputs; limits over closed-loop histories with lost packets are not sampled.",
 [RL, CT, CL], [("limiters", RL), ("applied before sending", CT+": convert_motion; "+CL+": spin_control")],
 ["command datagrams vs the state with the same id"])
prop("C07", "What is sent is the user's output, shaped exactly as documented",
 "The command on the wire is the callback's output for that cycle in the fields of the chosen control mode and nothing else: unchanged bit for bit when filtering is disabled (cutoff at or above 1000 Hz) and rate limiting is off, otherwise passed through the documented first-order low-pass filter (spherical interpolation for rotations) and then the documented limiter, both relative to the robot's last commanded values in the state being answered. Omitted options mean 100 Hz cutoff, rate limiting on and joint impedance; the elbow is sent as valid exactly when the user supplied one, and no valid output is refused.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every control mode, option combination, user output and reported robot history, under state and command loss",
 "Tests cover the filter and limiter functions on single values; which state values they are fed with, in which order they are applied and what ends up on the wire are untested.",
 [CT, CL, LP, RL, RI, RB], [("shaping", CT+": convert_motion"), ("torques", CL+": spin_control"), ("packing", RI+": send_robot_command; src/robot/types.rs")],
 ["command datagrams vs a reference model fed with the callback log and state history"])
prop("C08", "An invalid command never reaches the robot",
 "No command datagram ever carries a non-finite number in a used field, a Cartesian pose that is not a homogeneous transformation, or an elbow whose sign component is not plus or minus one, whatever a callback returns and whichever filter and limiter options are active. Not a homogeneous transformation are in particular scaled, skewed and mirrored matrices and those with another bottom row. A motion whose callback produces a non-finite number or an invalid elbow never ends successfully, and nothing more is commanded for it; the same holds for a finite matrix that is not a transformation unless the low-pass filter is on, which replaces it by a proper one.",
 ["inputs", "histories", "configurations"],
 "every kind of invalid output, in every component, at every cycle of a motion including the finishing one, for every mode and option combination",
 "No test feeds invalid callback outputs through a control loop.",
 [CT, CL, LP, RL], [("finiteness and matrix checks", CT+": convert_motion, check_matrix, check_elbow"), ("torque check", CL+": spin_control")],
 ["command datagrams", "outcome of the control call"])
prop("C09", "A motion succeeds exactly when the robot confirms it finished",
 "A control call returns success only after a callback asked to finish and the robot answered the motion request with success; the end-of-motion announcement is repeated on every new state until the robot reports that it stopped, so losing any of these datagrams neither hangs the call nor turns into a false success. If the robot does confirm, within bounded time after the faults cease, the call returns success.",
 ["schedules", "fault_sequences", "histories"],
 "every loss/delay/reorder pattern around the end of a motion and every relative order of final response, state change and finishing datagrams",
 "No test finishes a motion.",
 [RI, CL], [("finish handshake", RI+": finish_motion"), ("loop exit", CL+": do_loop")],
 ["result of the control call vs the robot's response history"])
prop("C10", "A motion the robot rejects or aborts ends in the matching exception",
 "When the robot rejects a motion, the control call fails with a command exception naming the reason and no callback runs; when the robot aborts, preempts or reflexes a running or finishing motion, the call fails with a control exception naming the reason, for a reflex also listing the robot's reported reflex reasons and the packets lost in the last step of the log. In every case no callback runs after a state that shows the motion is over, a stop request is sent for an aborted motion (the call then returns only once the robot, if it accepts the request, has reported that it stands), the original error is what the caller sees even if stopping fails too, and the call neither panics nor hangs.",
 ["schedules", "fault_sequences", "histories"],
 "every abort/reject status at every instant of a motion (starting, running, finishing), every order and delay of state change vs response, every answer to the stop request",
 "One test covers one rejected start; aborts of running motions are never produced.",
 [RI, CL], [("status mapping", RI+": handle_command_response_move"), ("abort detection", RI+": throw_on_motion_error, start_motion, finish_motion"), ("stopping", CL+": run; "+RI+": cancel_motion")],
 ["result of the control call", "requests at the simulated robot", "callback log"])
prop("C11", "The control exception's log is the true recent history of that motion",
 "The log attached to a control exception consists of the last commands sent in the failing motion, at most the configured number, oldest first, each paired with the robot state received after that command; nothing from an earlier motion appears and nothing recent is missing. This holds for every log size, including zero and one, and every motion length.",
 ["histories", "configurations", "fault_sequences"],
 "every log size, motion length, sequence of earlier motions on the connection, and loss pattern",
 "The logger has no test; no test obtains a control exception from a running motion.",
 ["src/robot/logger.rs", RI], [("ring of records", "src/robot/logger.rs: Logger"), ("attached on failure", RI+": create_control_exception")],
 ["ControlException.log vs wire history"])
prop("C12", "Every request gets its own response, however the stream is cut",
 "Each blocking request on a robot or gripper connection returns the outcome that the peer gave for that very request: a success, or the exception or value that belongs to the reported status, with all returned data intact. This holds for every segmentation, coalescing and delay of the response byte stream and when responses to other requests (such as a late end-of-motion answer) arrive before, with or after it.",
 ["schedules", "fault_sequences", "histories"],
 "every split and merge of the response stream into segments, every delay, every interleaving with unrelated responses, every status, every sequence of requests",
 "Mock servers answer each request with one separate small write; splitting, merging and unrelated responses never happen.",
 [NET, RB, RI, "src/gripper.rs"], [("stream reassembly and response table", NET+": tcp_read_from_buffer, wait_for_response_to_arrive"), ("status mapping", RB+"; src/gripper.rs")],
 ["API results vs responses the simulated peer generated per request id"])
prop("C13", "Requests on the wire say exactly what the caller asked, exactly once",
 "Each API call puts exactly one request on the connection (setting the default behaviour puts its three documented ones), with the documented wire layout, a correct length field, an identifier never used before on that connection, and bit-exact parameters including documented defaults. The request stream stays well-formed under short and interrupted writes.",
 ["inputs", "histories", "fault_sequences"],
 "every request kind and parameter value, every sequence of calls, every pattern of short or interrupted writes",
 "Only the collision-behaviour request is compared against an expected message, once, for one parameter set.",
 [RB, RI, NET, "src/robot/service_types.rs", "src/gripper.rs", "src/gripper/types.rs"],
 [("request building", RB+"; src/gripper.rs"), ("numbering", NET+": create_header_for_robot/gripper"), ("sending", NET+": tcp_send_request")],
 ["requests decoded at the simulated peer vs calls made"])
prop("C14", "A lost connection becomes a network error in bounded time",
 "If the peer closes or resets the connection, vanishes, or stops sending states, every API call in progress or made afterwards that needs the peer returns a network exception (during a motion: some exception, after the robot has been asked to stop if the connection still stands) within bounded time after the operating system reports the loss or the state timeout of one second has passed; it never hangs, panics or reports success. Interruptions of the state stream shorter than the timeout are ridden out without error.",
 ["fault_sequences", "schedules", "crash_points"],
 "every instant of failure within every API call, every kind of failure (orderly close, reset, silent death of host or link, state stream silence), with partial messages in flight",
 "No test breaks a connection.",
 [NET, RI, CL], [("receive paths", NET+": tcp_blocking_receive_response, udp_blocking_receive"), ("keep-alive", NET+": Network::new"), ("clean-up", RI+": cancel_motion")],
 ["outcome and simulated duration of the API call"])
prop("C15", "Connecting either yields a working session or a clear error",
 "Creating a robot or gripper connection succeeds only after the peer accepted this library's protocol version, and then reports the peer's version; an incompatible peer yields an incompatible-version error carrying both versions. An unresolvable name, refused or failing connection, a peer that dies during the handshake, or (for the robot) one that never sends a state yields a network exception, never a panic or hang, and a later attempt can succeed.",
 ["fault_sequences", "schedules", "configurations"],
 "every failure of name resolution, socket creation, connection, handshake byte stream and first state, at every point, and every server version",
 "Tests cover a version mismatch and the successful handshake only.",
 [NET, RI, RB, "src/gripper.rs"], [("connection set-up", NET+": Network::new"), ("handshake", RI+": connect_robot; src/gripper.rs: connect_gripper")],
 ["result of the constructor vs the simulated peer's history"])
prop("C16", "Gripper commands report the hand's own outcome",
 "Each gripper command (homing, move, grasp, stop) sends exactly one request with bit-exact parameters and documented default tolerances, waits for the answer to that very request however long the hand needs and however the bytes are cut, and returns true for success, false for an unsuccessful action and a command exception for failed or aborted ones. Losing the connection yields a network exception.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "every command sequence and parameter value, every status, every delay and segmentation, every connection failure instant",
 "The gripper tests are not even part of the reliable baseline; they use one well-behaved answer per command.",
 ["src/gripper.rs", "src/gripper/types.rs", NET], [("commands", "src/gripper.rs"), ("status mapping", "src/gripper.rs: handle_response_status")],
 ["API results vs simulated hand"])
prop("C17", "A gripper state read is complete, exact and fresh",
 "A gripper state read returns exactly one state message that the hand sent and that arrived after the call was made, every field bit-exact and from the same message, whatever backlog, loss, duplication or truncated datagrams surround it. If no state arrives within the timeout it fails with a network exception.",
 ["inputs", "schedules", "fault_sequences"],
 "every state content and every backlog/loss/duplication/truncation pattern relative to the call",
 "The gripper tests are not part of the reliable baseline and never form a backlog.",
 ["src/gripper.rs", "src/gripper/gripper_state.rs", "src/gripper/types.rs", NET], [("drain then wait", "src/gripper.rs: read_once")],
 ["GripperState returned vs datagrams sent"])
prop("C18", "The model file on disk is complete or absent, whatever fails",
 "Loading the robot model succeeds only with the complete library image the robot sent, and no failure (disk full, write or open error, short write, lost connection, robot-side error, process crash, or two processes loading at once) ever leaves behind a file that makes a later load use a damaged model or fail for good; such failures surface as exceptions, not panics. A persistent load leaves the file in place so that the next load needs no download; a non-persistent load leaves no model file behind.",
 ["crash_points", "fault_sequences", "schedules", "histories"],
 "every crash point, disk fault and connection fault during the download, every interleaving of two loading processes, every history of persistent and non-persistent loads",
 "No test loads a model.",
 ["src/model/library_downloader.rs", RI, "src/model/model_library.rs", NET], [("download and store", "src/model/library_downloader.rs: download"), ("reuse and removal", RI+": load_model")],
 ["simulated disk after every step", "result of the load"])
prop("C19", "Model quantities come from the robot's library and the given state",
 "Every model quantity (pose, body and zero Jacobian for each frame, mass, Coriolis, gravity) obtained for a robot state is what the downloaded library's function for that quantity and frame computes from exactly that state's values (total mass, total inertia, total centre of mass, joint values, end effector and stiffness frames, measured base acceleration as default gravity). This holds for every state of a live stream, before, during and after motions.",
 ["inputs", "histories", "schedules"],
 "every state of a live stream with lossy delivery, every frame and quantity, fresh and re-used model files",
 "No test loads a model library or evaluates it on a state.",
 ["src/model.rs", "src/model/model_library.rs", RI], [("argument selection", "src/model.rs"), ("symbol binding", "src/model/model_library.rs")],
 ["results vs a stub library whose outputs identify function and arguments"])
prop("C20", "Enforced real-time mode never moves the robot without real-time rights",
 "On a connection with real-time enforcement, a control call asks the robot to move only after the kernel was found real-time capable, the calling thread was given the real-time scheduling class at the intended priority and its memory was locked; if any of these fails the call returns a real-time exception and nothing is sent to the robot. With enforcement off, none of these is required and control works regardless.",
 ["fault_sequences", "configurations", "histories"],
 "every combination and order of failing system calls, kernel capability and configuration, for every control mode and at every motion of a session",
 "Tests run with enforcement off only; privileges and kernel capability cannot be varied in a test.",
 [CL, "src/robot/control_tools.rs", RB], [("check before start", CL+": new_intern"), ("priority and memory locking", "src/robot/control_tools.rs")],
 ["order of system calls vs requests on the wire", "result of the control call"])
prop("C21", "A failed operation does not poison the rest of the session",
 "After any failed, rejected or aborted motion or request, once the robot is reachable and ready again, further calls on the same connection behave as on a fresh one: error recovery, reads, settings and new motions work and their results, callbacks, elapsed times and logs show nothing of the earlier operations, even if the old motion's answer arrives late. Trying to start a motion while the newest received state shows the robot already moving fails with a control exception and sends no motion request, and two connections (two robots, or robot and hand) never influence each other.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of successful and failing operations, every late-answer timing, every interleaving of two connections",
 "Each test makes one connection, one call and exits.",
 [RI, NET, CL, "src/robot/logger.rs"], [("reset of motion bookkeeping", RI+": cancel_motion, finish_motion, start_motion"), ("response table", NET)],
 ["results of later operations vs the reference expectations"])
prop("C22", "Signals and spurious wake-ups change nothing",
 "Interrupting any blocking step with a signal, waking it spuriously, or satisfying reads and writes only partially never changes the outcome of an API call: no error, no panic, no lost or duplicated message, the same results as without the interruption.",
 ["schedules", "fault_sequences"],
 "every placement and number of interruptions, spurious wake-ups and short transfers on every system call of every API call",
 "Tests receive no signals and the loopback never transfers partially.",
 [NET], [("polling and reading", NET+": tcp_read_from_buffer, udp_blocking_receive, udp_receive, tcp_send_request")],
 ["API results and wire history under injected EINTR, spurious readiness and short transfers"])
prop("C23", "The built-in joint motion arrives at its goal",
 "The built-in point-to-point joint motion asks every joint only for positions between its start and its goal, announces its end only when it asks for the goal itself, and does so within the time its speed factor implies, for every start, goal and speed factor and whatever packets are lost or late, staying within the joint rate limits. When every state and command gets through in time each joint moves monotonically, never beyond its goal, and success means that the robot's commanded joint position is the goal (both to within ten microradians when no joint moves by a milliradian, where the jerk limits count).",
 ["inputs", "histories", "fault_sequences"],
 "every start/goal/speed combination, closed loop with the robot, under loss and delay patterns",
 "Tests compare the generated profile with recorded values for one goal, open loop.",
 ["src/utils.rs", RB, CL, RL], [("profile", "src/utils.rs: MotionGenerator"), ("wrapper", RB+": joint_motion")],
 ["simulated robot's commanded position over the motion"])
prop("C24", "The math helpers convert poses faithfully",
 "Converting between 4x4 column-major arrays, isometries and command types preserves the pose for every valid input, and textual forms of states and errors are well-formed.",
 ["inputs"], "every pose",
 "Two examples are tested.",
 ["src/utils.rs", CT, "src/robot/errors.rs"], [("array_to_isometry and From impls", "src/utils.rs, "+CT)], ["return values"])
prop("C25", "A control cycle meets the one-millisecond deadline",
 "On a suitable machine the library's own work in a control cycle, from the arrival of a state to the departure of the command, fits well within the robot's one-millisecond period.",
 ["schedules", "configurations"], "every cycle on real hardware",
 "Tests do not measure time.",
 [CL, NET], [("control cycle", CL)], ["wall-clock time"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
