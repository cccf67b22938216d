From 6b84db5c877f41b1573287f746d5e6b220c64a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:23 +0000
Subject: [PATCH 01/14] fix: report an unresolvable address as an error instead
 of panicking

---
 src/network.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index ec999ea..82c9eae 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -69,7 +69,10 @@ impl Network {
         franka_port: u16,
     ) -> Result<Network, Box<dyn Error>> {
         let address_str: String = format!("{}:{}", franka_address, franka_port);
-        let sock_address = address_str.to_socket_addrs().unwrap().next().unwrap();
+        let sock_address = address_str
+            .to_socket_addrs()?
+            .next()
+            .ok_or("libfranka-rs: the address could not be resolved")?;
         let mut tcp_socket = TcpStream::from_std(StdTcpStream::connect(sock_address)?);
         let fd = tcp_socket.as_raw_fd();
 
-- 
2.43.0


From bed251b1d2ba1d8141d5ff9070cfa356a9e2c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:25 +0000
Subject: [PATCH 02/14] fix: receive one whole state datagram per call and
 survive interrupted waits

Draining the socket into the buffer of the first datagram mixed the contents
of several datagrams, a signal during the wait panicked and a spurious wake-up
was reported as an error.
---
 src/network.rs | 67 +++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 82c9eae..01490aa 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -8,13 +8,13 @@ extern crate nix;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
 use std::os::unix::io::AsRawFd;
 use std::str::FromStr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use mio::net::{TcpStream, UdpSocket};
 use mio::{Events, Interest, Poll, Token};
@@ -266,39 +266,44 @@ impl Network {
     pub fn udp_blocking_receive<T: Debug + Serialize + DeserializeOwned + 'static>(
         &mut self,
     ) -> FrankaResult<T> {
-        self.poll_read_udp
-            .poll(&mut self.events_udp, Some(self.udp_timeout))
-            .unwrap();
-        for event in self.events_udp.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-                        let read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        while self.udp_socket.recv_from(&mut buffer).is_ok() {}
-                        let read_bytes = match read_bytes_and_address {
-                            Ok(res) => {
-                                self.udp_server_address = res.1;
-                                res.0
-                            }
-                            Err(e) => {
-                                return Err(FrankaException::NetworkException {
-                                    message: e.to_string(),
-                                });
-                            }
-                        };
-                        if read_bytes != size_of::<T>() {
-                            return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
-                        }
-                        return Ok(deserialize(&buffer));
+        let deadline = Instant::now() + self.udp_timeout;
+        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
+        loop {
+            match self.udp_socket.recv_from(&mut buffer) {
+                Ok((read_bytes, address)) => {
+                    self.udp_server_address = address;
+                    if read_bytes != size_of::<T>() {
+                        return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
                     }
+                    return Ok(deserialize(&buffer));
+                }
+                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => {
+                    return Err(FrankaException::NetworkException {
+                        message: e.to_string(),
+                    });
+                }
+            }
+            let remaining = deadline.saturating_duration_since(Instant::now());
+            if remaining == Duration::from_secs(0) {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: UDP receive: timeout".to_string(),
+                });
+            }
+            match self
+                .poll_read_udp
+                .poll(&mut self.events_udp, Some(remaining))
+            {
+                Ok(_) => {}
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(e) => {
+                    return Err(FrankaException::NetworkException {
+                        message: e.to_string(),
+                    });
                 }
-                _ => unreachable!(),
             }
         }
-        Err(FrankaException::NetworkException {
-            message: "libfranka-rs: UDP receive: timeout".to_string(),
-        })
     }
     pub fn udp_send<T: Debug + Serialize + DeserializeOwned>(
         &mut self,
-- 
2.43.0


From 520918a99faa21eec0fb678a2bdb4c05b607e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:26 +0000
Subject: [PATCH 03/14] fix: read every response from the stream and report a
 lost connection as NetworkException

---
 src/gripper.rs                  |  20 +--
 src/model/library_downloader.rs |   2 +-
 src/network.rs                  | 215 ++++++++++++++++----------------
 src/robot.rs                    |  44 +++----
 src/robot/robot_impl.rs         |  20 ++-
 5 files changed, 150 insertions(+), 151 deletions(-)

diff --git a/src/gripper.rs b/src/gripper.rs
index ae99df1..22117d4 100644
--- a/src/gripper.rs
+++ b/src/gripper.rs
@@ -51,9 +51,9 @@ impl Gripper {
                 .create_header_for_gripper(Command::Connect, size_of::<ConnectRequestWithHeader>()),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             Status::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -81,8 +81,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Move, size_of::<MoveRequestWithHeader>()),
             request: MoveRequest::new(width, speed),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Performs homing of the gripper.
@@ -99,8 +99,8 @@ impl Gripper {
         let command: HomingRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Homing, size_of::<HomingRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -114,8 +114,8 @@ impl Gripper {
         let command: StopRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Stop, size_of::<StopRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -152,8 +152,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Grasp, size_of::<GraspRequestWithHeader>()),
             request: GraspRequest::new(width, speed, force, epsilon_inner, epsilon_outer),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Waits for a gripper state update and returns it.
diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 5a7b99d..89f3f6e 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -30,7 +30,7 @@ impl LibraryDownloader {
                     system: LoadModelLibrarySystem::Linux,
                 },
             };
-            let command_id: u32 = network.tcp_send_request(command);
+            let command_id: u32 = network.tcp_send_request(command)?;
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
diff --git a/src/network.rs b/src/network.rs
index 01490aa..c2bc023 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -5,10 +5,10 @@
 extern crate libc;
 extern crate nix;
 
-use std::collections::HashMap;
+use std::collections::VecDeque;
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{ErrorKind, Read, Write};
+use std::io::{ErrorKind, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
@@ -19,8 +19,9 @@ use std::time::{Duration, Instant};
 use mio::net::{TcpStream, UdpSocket};
 use mio::{Events, Interest, Poll, Token};
 
-use nix::sys::socket::setsockopt;
+use nix::errno::Errno;
 use nix::sys::socket::sockopt::{KeepAlive, TcpKeepCount, TcpKeepIdle, TcpKeepInterval};
+use nix::sys::socket::{recv, setsockopt, MsgFlags};
 
 use serde::de::DeserializeOwned;
 use serde::Serialize;
@@ -52,10 +53,7 @@ pub struct Network {
     udp_timeout: Duration,
     pub command_id: u32,
     pending_response: Vec<u8>,
-    pending_response_offset: usize,
-    pending_response_len: usize,
-    pending_command_id: u32,
-    received_responses: HashMap<u32, Vec<u8>>,
+    received_responses: VecDeque<(u32, Vec<u8>)>,
     poll_read: Poll,
     events: Events,
     poll_read_udp: Poll,
@@ -90,9 +88,7 @@ impl Network {
 
         let command_id = 0;
         let pending_response: Vec<u8> = Vec::new();
-        let pending_response_offset = 0;
-        let pending_command_id = 0;
-        let received_responses = HashMap::new();
+        let received_responses = VecDeque::new();
         let poll_read = Poll::new()?;
         poll_read
             .registry()
@@ -112,9 +108,6 @@ impl Network {
             udp_timeout,
             command_id,
             pending_response,
-            pending_response_offset,
-            pending_command_id,
-            pending_response_len: 0,
             received_responses,
             poll_read,
             events,
@@ -144,10 +137,14 @@ impl Network {
     pub fn tcp_send_request<T: Serialize + DeserializeOwned + MessageCommand + Debug>(
         &mut self,
         request: T,
-    ) -> u32 {
+    ) -> FrankaResult<u32> {
         let encoded_request = serialize(&request);
-        self.tcp_socket.write_all(&encoded_request).unwrap();
-        request.get_command_message_id()
+        self.tcp_socket
+            .write_all(&encoded_request)
+            .map_err(|e| FrankaException::NetworkException {
+                message: format!("libfranka-rs: TCP send: {}", e),
+            })?;
+        Ok(request.get_command_message_id())
     }
     /// Blocks until a Response message with the given command ID has been received and returns this
     /// response.
@@ -157,9 +154,9 @@ impl Network {
     pub fn tcp_blocking_receive_response<T: DeserializeOwned + Debug + 'static>(
         &mut self,
         command_id: u32,
-    ) -> T {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
-        deserialize(&response_bytes)
+    ) -> FrankaResult<T> {
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
+        Ok(deserialize(&response_bytes))
     }
     /// Blocks until a LoadModelLibraryResponse message with the given command ID has been received
     /// and returns this LoadModelLibraryResponse.
@@ -177,7 +174,7 @@ impl Network {
         command_id: u32,
         buffer: &mut Vec<u8>,
     ) -> FrankaResult<LoadModelLibraryResponse> {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
         let lib_response: LoadModelLibraryResponse =
             deserialize(&response_bytes[0..size_of::<LoadModelLibraryResponse>()]);
         match lib_response.status {
@@ -219,35 +216,40 @@ impl Network {
         F: FnOnce(T) -> Result<(), FrankaException>,
         T: DeserializeOwned + Debug + 'static,
     {
-        self.tcp_read_from_buffer(Duration::from_micros(0));
-        let message = self.received_responses.get(&command_id);
-        if message.is_none() {
-            return Ok(false);
-        }
-        if message.unwrap().len() != size_of::<T>() {
-            panic!("libfranka-rs: Incorrect TCP message size.");
-        }
-        let message: T = deserialize(message.unwrap());
-        let result = handler(message);
-        match result {
-            Ok(_) => {
-                self.received_responses.remove(&command_id);
-                Ok(true)
+        let read = self.tcp_read_from_buffer(Duration::from_micros(0));
+        let message = match self.take_response(command_id) {
+            Some(message) => message,
+            None => {
+                read?;
+                return Ok(false);
             }
-            Err(e) => Err(e),
+        };
+        if message.len() != size_of::<T>() {
+            panic!("libfranka-rs: Incorrect TCP message size.");
         }
+        handler(deserialize(&message))?;
+        Ok(true)
     }
 
-    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> Vec<u8> {
-        let mut response_bytes: Option<Vec<u8>> = None;
-        while response_bytes == None {
-            {
-                self.tcp_read_from_buffer(Duration::from_millis(10));
-                response_bytes = self.received_responses.remove(command_id);
+    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
+        loop {
+            let read = self.tcp_read_from_buffer(Duration::from_millis(10));
+            if let Some(response_bytes) = self.take_response(*command_id) {
+                return Ok(response_bytes);
             }
+            read?;
             std::thread::yield_now();
         }
-        response_bytes.unwrap()
+    }
+    /// removes the oldest received response with the given command ID
+    fn take_response(&mut self, command_id: u32) -> Option<Vec<u8>> {
+        let index = self
+            .received_responses
+            .iter()
+            .position(|(id, _)| *id == command_id)?;
+        self.received_responses
+            .remove(index)
+            .map(|(_, message)| message)
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
         // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
@@ -323,75 +325,74 @@ impl Network {
         Ok(())
     }
 
-    fn tcp_read_from_buffer(&mut self, timeout: Duration) {
-        self.poll_read
-            .poll(&mut self.events, Some(timeout))
-            .unwrap();
-        for event in self.events.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer = [0_u8; 70000];
-                        let available_bytes = self.tcp_socket.peek(&mut buffer);
-                        let available_bytes = match available_bytes {
-                            Ok(a) => a,
-                            Err(e) => {
-                                eprintln!("{}", e);
-                                return;
-                            }
-                        };
-
-                        if self.pending_response.is_empty() {
-                            let header_mem_size = match self.network_type {
-                                NetworkType::Gripper => size_of::<CommandHeader>(),
-                                NetworkType::Robot => size_of::<RobotCommandHeader>(),
-                            };
-                            if available_bytes >= header_mem_size {
-                                let mut header_bytes: Vec<u8> = vec![0; header_mem_size];
-                                self.tcp_socket.read_exact(&mut header_bytes).unwrap();
-                                self.pending_response.append(&mut header_bytes.clone());
-                                self.pending_response_offset = header_mem_size as usize;
-                                match self.network_type {
-                                    NetworkType::Gripper => {
-                                        let header: CommandHeader = deserialize(&header_bytes);
-                                        self.pending_response_len = header.size as usize;
-                                        self.pending_command_id = header.command_id;
-                                    }
-                                    NetworkType::Robot => {
-                                        let header: RobotCommandHeader = deserialize(&header_bytes);
-                                        self.pending_response_len = header.size as usize;
-                                        self.pending_command_id = header.command_id;
-                                    }
-                                };
-                            }
-                        }
-                        if !self.pending_response.is_empty() && available_bytes > 0 {
-                            let number_of_bytes_to_read = usize::min(
-                                available_bytes,
-                                self.pending_response_len - self.pending_response_offset as usize,
-                            );
-                            let mut response_buffer: Vec<u8> = vec![0; number_of_bytes_to_read];
-                            self.tcp_socket.read_exact(&mut response_buffer).unwrap();
-                            self.pending_response.append(&mut response_buffer);
-                            self.pending_response_offset += number_of_bytes_to_read;
-                            if self.pending_response_offset == self.pending_response_len as usize {
-                                self.received_responses
-                                    .insert(self.pending_command_id, self.pending_response.clone());
-                                self.pending_response.clear();
-                                self.pending_response_offset = 0;
-                                self.pending_command_id = 0;
-                                self.pending_response_len = 0;
-                            }
-                        }
-                    }
-                    if event.is_writable() {
-                        eprintln!("There should not be any writable events")
-                    }
+    /// waits up to timeout for data and stores every response which has completely arrived
+    fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
+        match self.poll_read.poll(&mut self.events, Some(timeout)) {
+            Ok(_) => {}
+            Err(e) if e.kind() == ErrorKind::Interrupted => {}
+            Err(e) => {
+                return Err(FrankaException::NetworkException {
+                    message: e.to_string(),
+                });
+            }
+        }
+        let mut buffer = [0_u8; 70000];
+        loop {
+            match recv(
+                self.tcp_socket.as_raw_fd(),
+                &mut buffer,
+                MsgFlags::MSG_DONTWAIT,
+            ) {
+                Ok(0) => {
+                    return Err(FrankaException::NetworkException {
+                        message: "libfranka-rs: server closed the connection".to_string(),
+                    });
+                }
+                Ok(read_bytes) => {
+                    self.pending_response
+                        .extend_from_slice(&buffer[..read_bytes]);
+                    self.store_complete_responses()?;
+                }
+                Err(nix::Error::Sys(Errno::EAGAIN)) => return Ok(()),
+                Err(nix::Error::Sys(Errno::EINTR)) => {}
+                Err(e) => {
+                    return Err(FrankaException::NetworkException {
+                        message: format!("libfranka-rs: TCP receive: {}", e),
+                    });
                 }
-                _ => unreachable!(),
             }
         }
     }
+    fn store_complete_responses(&mut self) -> FrankaResult<()> {
+        let header_mem_size = match self.network_type {
+            NetworkType::Gripper => size_of::<CommandHeader>(),
+            NetworkType::Robot => size_of::<RobotCommandHeader>(),
+        };
+        while self.pending_response.len() >= header_mem_size {
+            let header_bytes = &self.pending_response[..header_mem_size];
+            let (command_id, size) = match self.network_type {
+                NetworkType::Gripper => {
+                    let header: CommandHeader = deserialize(header_bytes);
+                    (header.command_id, header.size as usize)
+                }
+                NetworkType::Robot => {
+                    let header: RobotCommandHeader = deserialize(header_bytes);
+                    (header.command_id, header.size as usize)
+                }
+            };
+            if size < header_mem_size {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: Incorrect TCP message size.".to_string(),
+                });
+            }
+            if self.pending_response.len() < size {
+                break;
+            }
+            let response = self.pending_response.drain(..size).collect();
+            self.received_responses.push_back((command_id, response));
+        }
+        Ok(())
+    }
     pub fn get_udp_port(&self) -> u16 {
         self.udp_port
     }
diff --git a/src/robot.rs b/src/robot.rs
index 05986bf..de89a1e 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -256,11 +256,11 @@ impl Robot {
                 upper_force_thresholds_nominal,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCollisionBehaviorResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -281,11 +281,11 @@ impl Robot {
             ),
             request: SetJointImpedanceRequest::new(K_theta),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetJointImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -308,11 +308,11 @@ impl Robot {
             ),
             request: SetCartesianImpedanceRequest::new(K_x),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCartesianImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Locks or unlocks guiding mode movement in (x, y, z, roll, pitch, yaw).
@@ -334,11 +334,11 @@ impl Robot {
             ),
             request: SetGuidingModeRequest::new(guiding_mode, elbow),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetGuidingModeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -361,11 +361,11 @@ impl Robot {
             ),
             request: SetEeToKRequest::new(EE_T_K),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetEeToKResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -392,11 +392,11 @@ impl Robot {
             ),
             request: SetNeToEeRequest::new(NE_T_EE),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetNeToEeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets dynamic parameters of a payload.
@@ -427,11 +427,11 @@ impl Robot {
             ),
             request: SetLoadRequest::new(load_mass, F_x_Cload, load_inertia),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetLoadResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets the cut off frequency for the given motion generator or controller.
@@ -473,11 +473,11 @@ impl Robot {
                 controller_filter_frequency,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetFiltersResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -492,11 +492,11 @@ impl Robot {
             RobotCommandEnum::AutomaticErrorRecovery,
             size_of::<AutomaticErrorRecoveryRequestWithHeader>(),
         );
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: AutomaticErrorRecoveryResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             AutomaticErrorRecoveryStatus::Success => Ok(()),
             AutomaticErrorRecoveryStatus::EmergencyAborted => Err(create_command_exception(
@@ -535,11 +535,11 @@ impl Robot {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: StopMoveResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
             StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
@@ -571,11 +571,11 @@ impl Robot {
             ),
             request: GetCartesianLimitRequest::new(id),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: GetCartesianLimitResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             GetterSetterStatus::Success => Ok(VirtualWallCuboid::new(id, response)),
             GetterSetterStatus::CommandNotPossibleRejected => Err(create_command_exception(
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1db48ad..a0681fa 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -125,9 +125,9 @@ impl RobotImpl {
             ),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             ConnectStatus::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -264,8 +264,8 @@ impl RobotImpl {
                 *maximum_goal_deviation,
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_move(&response)?;
         Ok(command_id)
     }
@@ -276,8 +276,8 @@ impl RobotImpl {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_stop(&response)?;
         Ok(command_id)
     }
@@ -330,9 +330,7 @@ impl RobotControl for RobotImpl {
                         error: message,
                     });
                 }
-                _ => {
-                    panic!("this should be an command exception but it is not")
-                }
+                Err(error) => return Err(error),
             }
 
             let _robot_state = self.update(None, None)?;
@@ -365,7 +363,7 @@ impl RobotControl for RobotImpl {
             robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);
         }
         let robot_state = robot_state.unwrap();
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id);
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
         if response.status == MoveStatus::ReflexAborted {
             return Err(create_control_exception(
                 String::from("Motion finished commanded, but the robot is still moving!"),
@@ -439,7 +437,7 @@ impl RobotControl for RobotImpl {
             || self.motion_generator_mode.unwrap() != self.current_move_motion_generator_mode
             || self.controller_mode != self.current_move_controller_mode.unwrap()
         {
-            let response = self.network.tcp_blocking_receive_response(motion_id);
+            let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
             let result = handle_command_response_move(&response);
             return match result {
                 Err(error) => Err(create_control_exception(
-- 
2.43.0


From bdab476e6e3ee3dc715d2343ad353b1fa8cd1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:05 +0000
Subject: [PATCH 04/14] fix: read never returns a state older than one it has
 drained from the socket

---
 src/robot/robot_impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index a0681fa..bcd47c4 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -145,7 +145,11 @@ impl RobotImpl {
         self.message_id = robot_state.message_id;
     }
     pub fn read_once(&mut self) -> FrankaResult<RobotState> {
-        while self.network.udp_receive::<RobotStateIntern>().is_some() {}
+        while let Some(state) = self.network.udp_receive::<RobotStateIntern>() {
+            if state.message_id > self.message_id {
+                self.update_state_with(&state);
+            }
+        }
         Ok(RobotState::from(self.receive_robot_state()?))
     }
     fn receive_robot_state(&mut self) -> FrankaResult<RobotStateIntern> {
-- 
2.43.0


From 7551ea7122728f84640baab665dc759413533f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:05 +0000
Subject: [PATCH 05/14] fix: report a missing first robot state as
 NetworkException instead of panicking

---
 src/robot/robot_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index bcd47c4..d2c0171 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -112,8 +112,7 @@ impl RobotImpl {
         robot_impl.connect_robot()?;
         let state = robot_impl
             .network
-            .udp_blocking_receive::<RobotStateIntern>()
-            .unwrap();
+            .udp_blocking_receive::<RobotStateIntern>()?;
         robot_impl.update_state_with(&state);
         Ok(robot_impl)
     }
-- 
2.43.0


From 657bcc778154daa8adb9a57b2cf6c9fbc69a3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:06 +0000
Subject: [PATCH 06/14] fix: a failing stop while canceling a motion neither
 panics nor hangs

---
 src/robot/robot_impl.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index d2c0171..4c47184 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -396,20 +396,24 @@ impl RobotControl for RobotImpl {
 
     // TODO exception handling
     fn cancel_motion(&mut self, motion_id: u32) {
-        self.execute_stop_command()
-            .expect("error while canceling motion"); //todo handle Network exception. But it is not that important since we already have an error anyways
-        let mut _robot_state = self.receive_robot_state();
-        while self.motion_generator_running() || self.controller_running() {
-            _robot_state = self.receive_robot_state();
+        // The caller reports the error which led to the cancellation. An error while canceling is
+        // therefore not reported, but there is no point in waiting for a robot which did not stop.
+        if self.execute_stop_command().is_ok() {
+            let mut robot_state = self.receive_robot_state();
+            while robot_state.is_ok()
+                && (self.motion_generator_running() || self.controller_running())
+            {
+                robot_state = self.receive_robot_state();
+            }
         }
 
         // comment from libfranka devs:
         // Ignore Move response.
         // TODO (FWA): It is not guaranteed that the Move response won't come later
 
-        self.network
-            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()))
-            .expect("This should be impossible as the handler always returns Ok(())");
+        let _ = self
+            .network
+            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()));
         self.current_move_motion_generator_mode = MotionGeneratorMode::Idle;
         self.current_move_controller_mode = Some(ControllerMode::Other);
     }
-- 
2.43.0


From c6497710ec4533445214e7f9a936b87b70e8b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:07 +0000
Subject: [PATCH 07/14] fix: starting a motion while the robot is moving is an
 error, not a panic

---
 src/robot/robot_impl.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 4c47184..973e344 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -295,7 +295,16 @@ impl RobotControl for RobotImpl {
         maximum_goal_deviation: &MoveDeviation,
     ) -> FrankaResult<u32> {
         if self.motion_generator_running() || self.controller_running() {
-            panic!("libfranka-rs robot: Attempted to start multiple motions!");
+            // The last received state may be outdated.
+            self.receive_robot_state()?;
+            if self.motion_generator_running() || self.controller_running() {
+                return Err(FrankaException::ControlException {
+                    log: None,
+                    error: String::from(
+                        "libfranka-rs robot: Attempted to start multiple motions!",
+                    ),
+                });
+            }
         }
         self.current_move_motion_generator_mode = match motion_generator_mode {
             MoveMotionGeneratorMode::JointPosition => MotionGeneratorMode::JointPosition,
-- 
2.43.0


From cc4b2ec230ca0ec3b5ebc25b3d3edc7edee1dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:44 +0000
Subject: [PATCH 08/14] fix: the control exception log holds the latest
 commands of this motion, oldest first

---
 src/robot/logger.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index db4fb76..4d83cec 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -49,8 +49,6 @@ impl Record {
 pub(crate) struct Logger {
     states: VecDeque<RobotState>,
     commands: VecDeque<RobotCommand>,
-    ring_front: usize,
-    ring_size: usize,
     log_size: usize,
 }
 
@@ -59,26 +57,23 @@ impl Logger {
         Logger {
             states: VecDeque::with_capacity(log_size),
             commands: VecDeque::with_capacity(log_size),
-            ring_front: 0,
-            ring_size: 0,
             log_size,
         }
     }
     pub fn log(&mut self, state: &RobotState, command: &RobotCommand) {
-        self.states.push_back(state.clone());
-        self.commands.push_back(*command);
-        self.ring_front = (self.ring_front + 1) % self.log_size;
-        if self.ring_size == self.log_size {
+        if self.log_size == 0 {
+            return;
+        }
+        if self.states.len() == self.log_size {
             self.states.pop_front();
             self.commands.pop_front();
         }
-        self.ring_size = usize::min(self.log_size, self.ring_size + 1);
+        self.states.push_back(state.clone());
+        self.commands.push_back(*command);
     }
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
-        for i in 0..self.ring_size {
-            let index = (self.ring_front + i) % self.ring_size;
-            let cmd = self.commands.get(index).unwrap();
+        for (state, cmd) in self.states.drain(..).zip(self.commands.drain(..)) {
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
@@ -86,14 +81,8 @@ impl Logger {
                 cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, None),
                 torques: Torques::new(cmd.control.tau_J_d),
             };
-            let record = Record {
-                state: self.states.get(index).unwrap().clone(),
-                command,
-            };
-            out.push(record);
+            out.push(Record { state, command });
         }
-        self.ring_front = 0;
-        self.ring_size = 0;
         out
     }
 }
-- 
2.43.0


From c25df7663c9b5511062fe743cf6cebf46f571466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:45 +0000
Subject: [PATCH 09/14] fix: coriolis_from_state uses the inertia of the total
 load

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 191fc13..b561c95 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -347,7 +347,7 @@ impl Model {
         self.coriolis(
             &robot_state.q,
             &robot_state.dq,
-            &robot_state.I_load,
+            &robot_state.I_total,
             robot_state.m_total,
             &robot_state.F_x_Ctotal,
         )
-- 
2.43.0


From d6ca0c0095a776fe7d169718e475193561498899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:46 +0000
Subject: [PATCH 10/14] fix: a failed or interrupted model download leaves no
 damaged model behind

---
 src/model/library_downloader.rs | 28 ++++++++++++++++++++--------
 src/network.rs                  |  9 +++++----
 src/robot/robot_impl.rs         | 16 ++++++++++++----
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 89f3f6e..6facaf0 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -10,10 +10,17 @@ use crate::FrankaResult;
 use std::fmt;
 use std::fmt::Display;
 use std::fmt::Formatter;
-use std::fs::File;
+use std::fs::{remove_file, rename, File};
 use std::io::Write;
 use std::mem::size_of;
 use std::path::Path;
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+/// distinguishes simultaneous downloads within this process
+fn next_id() -> usize {
+    static NEXT_ID: AtomicUsize = AtomicUsize::new(0);
+    NEXT_ID.fetch_add(1, Ordering::Relaxed)
+}
 
 pub struct LibraryDownloader {}
 
@@ -34,13 +41,18 @@ impl LibraryDownloader {
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
-            let mut file = File::create(download_path).map_err(|_| ModelException {
-                message: "Error writing model to disk:".to_string(),
-            })?;
-            file.write(&buffer).map_err(|_| ModelException {
-                message: "Error writing model to disk:".to_string(),
-            })?;
-            Ok(())
+            // The model only appears at its final path after it has been written completely.
+            let temporary_path =
+                download_path.with_extension(format!("so.{}.{}", std::process::id(), next_id()));
+            let result = File::create(&temporary_path)
+                .and_then(|mut file| file.write_all(&buffer))
+                .and_then(|_| rename(&temporary_path, download_path));
+            result.map_err(|e| {
+                let _ = remove_file(&temporary_path);
+                ModelException {
+                    message: format!("Error writing model to disk: {}", e),
+                }
+            })
         } else {
             Err(ModelException {
                 message:
diff --git a/src/network.rs b/src/network.rs
index c2bc023..14eb2d8 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -186,10 +186,11 @@ impl Network {
                 });
             }
         }
-        assert_ne!(
-            lib_response.header.size as usize,
-            size_of::<LoadModelLibraryResponse>()
-        );
+        if response_bytes.len() == size_of::<LoadModelLibraryResponse>() {
+            return Err(FrankaException::ModelException {
+                message: "libfranka-rs: Server sent an empty model library.".to_string(),
+            });
+        }
         buffer.append(&mut Vec::from(
             &response_bytes[size_of::<LoadModelLibraryResponse>()..],
         ));
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 973e344..a35b6f4 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -23,6 +23,7 @@ use crate::robot::types::{
     RobotMode, RobotStateIntern,
 };
 use std::fs::remove_file;
+use std::io::ErrorKind;
 use std::path::Path;
 
 pub struct RobotImpl {
@@ -239,11 +240,18 @@ impl RobotImpl {
         if !model_already_downloaded {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
-        let model = Model::new(model_file, None)?;
-        if !persistent && model_already_downloaded {
-            remove_file(model_file).expect("Could not delete file");
+        let model = Model::new(model_file, None);
+        if !persistent || (model.is_err() && !model_already_downloaded) {
+            match remove_file(model_file) {
+                Err(e) if e.kind() != ErrorKind::NotFound => {
+                    return Err(FrankaException::ModelException {
+                        message: format!("libfranka-rs: Could not delete the model file: {}", e),
+                    });
+                }
+                _ => {}
+            }
         }
-        Ok(model)
+        model
     }
     pub fn server_version(&self) -> u16 {
         self.ri_version.unwrap()
-- 
2.43.0


From 72b6ebc968a7b58bb8d629d058b5ce3c0293e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:18 +0000
Subject: [PATCH 11/14] fix: poses half a turn away from the base frame are no
 longer turned over

array_to_isometry and limit_rate_cartesian_pose extracted the rotation by an
iteration that starts at the identity. Half a turn away from it (a gripper
pointing straight down) the iteration is stuck and gave the identity, so that
the filtered or rate limited command turned the end effector over. For matrices
that are no rotation it never ended at all.
---
 src/robot/rate_limiting.rs |  8 ++++++--
 src/utils.rs               | 18 +++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index a621576..b6bc08c 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -356,8 +356,12 @@ pub fn limit_rate_cartesian_pose(
         let R = Matrix3::identity()
             + f64::sin(theta) * omega_skew
             + (1. - f64::cos(theta)) * (omega_skew * omega_skew);
-        limited_commanded_pose.rotation =
-            UnitQuaternion::from_matrix(&(R * last_commanded_pose.rotation.to_rotation_matrix()));
+        limited_commanded_pose.rotation = UnitQuaternion::from_matrix_eps(
+            &(R * last_commanded_pose.rotation.to_rotation_matrix()),
+            f64::EPSILON,
+            100,
+            last_commanded_pose.rotation,
+        );
     }
     let mut limited_values = [0.; 16];
     for (i, &x) in limited_commanded_pose.to_homogeneous().iter().enumerate() {
diff --git a/src/utils.rs b/src/utils.rs
index a6136ae..4bb1acd 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,19 +4,23 @@
 //! contains useful type definitions and conversion functions.
 use crate::robot::control_types::{Finishable, JointPositions};
 use crate::robot::robot_state::RobotState;
-use nalgebra::{Isometry3, Matrix4, MatrixMN, MatrixN, Rotation3, Vector3, VectorN, U6, U7};
+use nalgebra::{
+    Isometry3, Matrix4, MatrixMN, MatrixN, Rotation3, UnitQuaternion, Vector3, VectorN, U6, U7,
+};
 use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let rot = Rotation3::from_matrix(
-        &Matrix4::from_column_slice(array)
-            .remove_column(3)
-            .remove_row(3),
-    );
+    let matrix = Matrix4::from_column_slice(array)
+        .remove_column(3)
+        .remove_row(3);
+    // The iteration gets stuck if it starts half a turn away, so it must not start at the identity.
+    // A valid rotation needs far fewer steps than allowed here.
+    let guess = UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(matrix));
+    let guess = UnitQuaternion::new_normalize(guess.into_inner());
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
-        rot.into(),
+        UnitQuaternion::from_matrix_eps(&matrix, f64::EPSILON, 100, guess),
     )
 }
 /// A Vector with 7 entries
-- 
2.43.0


From f9cefc38d475a88e6d582f31a316c154ae3390e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:31 +0000
Subject: [PATCH 12/14] fix: a mirrored Cartesian pose is not a valid command

Rows and columns of unit length do not make a rotation: a left-handed frame
passed the check and was sent to the robot.
---
 src/robot/control_tools.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/robot/control_tools.rs b/src/robot/control_tools.rs
index d2ffa99..1a7baa9 100644
--- a/src/robot/control_tools.rs
+++ b/src/robot/control_tools.rs
@@ -3,6 +3,7 @@
 
 use crate::exception::FrankaException;
 use crate::FrankaResult;
+use nalgebra::Matrix3;
 use std::path::Path;
 
 /// Determines whether the current OS kernel is a realtime kernel.
@@ -82,6 +83,18 @@ pub fn is_homogeneous_transformation(transform: &[f64; 16]) -> bool {
             return false;
         }
     }
-
-    true
+    // a mirrored frame has rows and columns of unit length as well
+    Matrix3::new(
+        transform[0],
+        transform[4],
+        transform[8],
+        transform[1],
+        transform[5],
+        transform[9],
+        transform[2],
+        transform[6],
+        transform[10],
+    )
+    .determinant()
+        > 0.
 }
-- 
2.43.0


From 81fec91ea4127a355f7bf03a489f4c624dd93f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:32 +0000
Subject: [PATCH 13/14] fix: do not take buffered states of an earlier motion
 for the start of the next one

States that arrived while the library waited for the answer to an earlier
motion request stay in the socket buffer. If one of them shows the same kind
of motion running, start_motion took it for the start of the new motion, then
saw the (not yet started) robot idle and waited for an answer instead of
serving the motion. Start every motion from a state received after the call.
---
 src/robot/robot_impl.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index a35b6f4..aa96286 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -302,17 +302,14 @@ impl RobotControl for RobotImpl {
         maximum_path_deviation: &MoveDeviation,
         maximum_goal_deviation: &MoveDeviation,
     ) -> FrankaResult<u32> {
+        // The last received state and the buffered ones may be outdated. They could even show an
+        // earlier motion, which must not be mistaken for the one to be started.
+        self.read_once()?;
         if self.motion_generator_running() || self.controller_running() {
-            // The last received state may be outdated.
-            self.receive_robot_state()?;
-            if self.motion_generator_running() || self.controller_running() {
-                return Err(FrankaException::ControlException {
-                    log: None,
-                    error: String::from(
-                        "libfranka-rs robot: Attempted to start multiple motions!",
-                    ),
-                });
-            }
+            return Err(FrankaException::ControlException {
+                log: None,
+                error: String::from("libfranka-rs robot: Attempted to start multiple motions!"),
+            });
         }
         self.current_move_motion_generator_mode = match motion_generator_mode {
             MoveMotionGeneratorMode::JointPosition => MotionGeneratorMode::JointPosition,
-- 
2.43.0


From f6ade053ac80ed60d0b41c6e705b29116e777af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 14/14] fix: refuse skewed poses

A matrix whose rows and columns all have unit length need not be a rotation:
its axes may not be perpendicular. Such a pose passed the check and was sent
to the robot.
---
 src/robot/control_tools.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/robot/control_tools.rs b/src/robot/control_tools.rs
index 1a7baa9..259a668 100644
--- a/src/robot/control_tools.rs
+++ b/src/robot/control_tools.rs
@@ -83,7 +83,8 @@ pub fn is_homogeneous_transformation(transform: &[f64; 16]) -> bool {
             return false;
         }
     }
-    // a mirrored frame has rows and columns of unit length as well
+    // Mirrored and skewed frames can have rows and columns of unit length as well. With those, the
+    // determinant is 1 for a rotation and less than that for everything else.
     Matrix3::new(
         transform[0],
         transform[4],
@@ -96,5 +97,5 @@ pub fn is_homogeneous_transformation(transform: &[f64; 16]) -> bool {
         transform[10],
     )
     .determinant()
-        > 0.
+        > 1. - 10. * ORTHONORMAL_THRESHOLD
 }
-- 
2.43.0

