//! The libc entry points the library (through std, mio, nix, libloading) reaches the outside world
//! with. Defined in the executable, so the static linker resolves every call here. Calls made by
//! anything but a simulated client go to the real kernel.
#![allow(clippy::missing_safety_doc, non_snake_case, invalid_runtime_symbol_definitions)]
use crate::hist::*;
use crate::model_stub;
use crate::plan::*;
use crate::rng::*;
use crate::wire::*;
use crate::world::*;
use libc::*;
use std::ffi::{CStr, CString};

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn fail(e: i32) -> i32 {
    set_errno(e);
    -1
}
fn failz(e: i32) -> ssize_t {
    set_errno(e);
    -1
}
type Sim = (usize, InSim, &'static mut World);
fn enter() -> Option<Sim> {
    let me = sim_me()?;
    let g = InSim::new();
    Some((me, g, world()))
}
fn enter_fd(fd: c_int) -> Option<Sim> {
    if fd < FD_BASE {
        return None;
    }
    enter()
}
macro_rules! raw {
    ($n:expr $(, $a:expr)*) => { libc::syscall($n $(, $a)*) };
}
unsafe fn next_sym(name: &str) -> *mut c_void {
    let c = CString::new(name).unwrap();
    real_dlsym(RTLD_NEXT, c.as_ptr())
}
unsafe fn real_dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void {
    static mut P: usize = 0;
    if P == 0 {
        for v in ["GLIBC_2.34", "GLIBC_2.2.5"] {
            let n = CString::new("dlsym").unwrap();
            let v = CString::new(v).unwrap();
            let p = dlvsym(RTLD_NEXT, n.as_ptr(), v.as_ptr());
            if !p.is_null() {
                P = p as usize;
                break;
            }
        }
        assert!(P != 0);
    }
    let f: extern "C" fn(*mut c_void, *const c_char) -> *mut c_void = std::mem::transmute(P);
    f(h, name)
}
extern "C" {
    fn dlvsym(h: *mut c_void, n: *const c_char, v: *const c_char) -> *mut c_void;
}

fn alloc_fd(w: &mut World, obj: SockRef, nonblock: bool) -> c_int {
    for (i, f) in w.fds.iter_mut().enumerate() {
        if f.obj.is_none() {
            *f = FdEnt { obj: Some(obj), nonblock, rcvtimeo: 0 };
            return FD_BASE + i as i32;
        }
    }
    w.fds.push(FdEnt { obj: Some(obj), nonblock, rcvtimeo: 0 });
    FD_BASE + w.fds.len() as i32 - 1
}
fn obj(w: &World, fd: c_int) -> Option<SockRef> {
    w.fds.get((fd - FD_BASE) as usize).and_then(|f| f.obj)
}
fn ent(w: &mut World, fd: c_int) -> &mut FdEnt {
    &mut w.fds[(fd - FD_BASE) as usize]
}
fn harness(w: &mut World, m: &str) {
    if w.end == End::Running {
        w.end = End::Harness(m.to_string());
    }
}

// ------------------------------------------------------------------ sockets
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_socket, dom, ty, proto) as c_int };
    w.charge(me);
    let nb = ty & SOCK_NONBLOCK != 0;
    if dom != AF_INET {
        return fail(EAFNOSUPPORT);
    }
    match ty & 0xf {
        SOCK_STREAM => {
            w.conns.push(Conn {
                client: me,
                srv: usize::MAX,
                state: CS::New,
                so_error: 0,
                rx: Default::default(),
                fin: false,
                err: None,
                hup: false,
                wr_shut: false,
                closed: false,
                refs: 1,
                nonblock: nb,
                keep: false,
                keep_idle: 7200,
                keep_intvl: 75,
                keep_cnt: 9,
                rx_seq: 0,
                srv_rx: vec![],
                sent_total: 0,
                recv_total: 0,
                last_to_client: 0,
                last_to_server: 0,
                hold: vec![],
                hold_until: 0,
                held_to_client: vec![],
                held_to_server: vec![],
                fly_c: Default::default(),
                fly_s: Default::default(),
                resps: vec![],
                srv_alive: false,
                srv_dead_rst: false,
                cut: None,
                local_port: 0,
                handshaken: false,
                udp: None,
                unacked: false,
                nreq: 0,
                sent_ops: Default::default(),
                c2s_total: 0,
                srv_done: 0,
                nresp: 0,
                loss_seen: false,
            });
            let i = w.conns.len() - 1;
            alloc_fd(w, SockRef::Tcp(i), nb)
        }
        SOCK_DGRAM => {
            w.udps.push(Udp { client: me, port: 0, q: Default::default(), refs: 1, closed: false, rx_seq: 0, peer: None, seen: Default::default() });
            let i = w.udps.len() - 1;
            alloc_fd(w, SockRef::Udp(i), nb)
        }
        _ => fail(EPROTONOSUPPORT),
    }
}
unsafe fn rd_addr(a: *const sockaddr, len: socklen_t) -> Option<([u8; 4], u16)> {
    if a.is_null() || (len as usize) < std::mem::size_of::<sockaddr_in>() {
        return None;
    }
    let s = &*(a as *const sockaddr_in);
    if s.sin_family as i32 != AF_INET {
        return None;
    }
    Some((s.sin_addr.s_addr.to_ne_bytes(), u16::from_be(s.sin_port)))
}
unsafe fn wr_addr(a: *mut sockaddr, len: *mut socklen_t, ip: [u8; 4], port: u16) {
    if a.is_null() || len.is_null() {
        return;
    }
    let mut s: sockaddr_in = std::mem::zeroed();
    s.sin_family = AF_INET as u16;
    s.sin_port = port.to_be();
    s.sin_addr.s_addr = u32::from_ne_bytes(ip);
    let n = std::mem::size_of::<sockaddr_in>().min(*len as usize);
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *len = std::mem::size_of::<sockaddr_in>() as u32;
}
fn client_ip(c: usize) -> [u8; 4] {
    [10, 0, 9, 10 + c as u8]
}
fn new_port(w: &mut World) -> u16 {
    let p = w.next_port;
    w.next_port = if p == 65535 { 1024 } else { p + 1 };
    p
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_bind, fd, a, len) as c_int };
    w.charge(me);
    let Some((_, port)) = rd_addr(a, len) else { return fail(EINVAL) };
    let p = if port == 0 { new_port(w) } else { port };
    match obj(w, fd) {
        Some(SockRef::Udp(u)) => {
            w.udps[u].port = p;
            0
        }
        Some(SockRef::Tcp(c)) => {
            w.conns[c].local_port = p;
            0
        }
        _ => fail(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_connect, fd, a, len) as c_int };
    w.charge(me);
    let Some((ip, port)) = rd_addr(a, len) else { return fail(EINVAL) };
    match obj(w, fd) {
        Some(SockRef::Udp(u)) => {
            w.udps[u].peer = Some((ip, port));
            0
        }
        Some(SockRef::Tcp(c)) => {
            if w.conns[c].state == CS::Connecting {
                return fail(EALREADY);
            }
            if w.conns[c].state == CS::Up {
                return fail(EISCONN);
            }
            let srv = (0..w.plan.servers.len()).find(|i| {
                let s = &w.plan.servers[*i];
                s.ip == ip && port == if s.gripper { 1338 } else { 1337 }
            });
            let p = new_port(w);
            w.conns[c].local_port = p;
            w.conns[c].state = CS::Connecting;
            w.clients[me].conn = Some(c);
            let known = w.plan.servers.iter().any(|s| s.ip == ip);
            let rtt = w.lat(true) * 2;
            let now = w.now;
            match srv {
                None => {
                    w.note(|| format!("connect to unknown peer {:?}:{}", ip, port));
                    w.at(now + rtt, Ev::ConnDone(c, if known { ECONNREFUSED } else { EHOSTUNREACH }));
                }
                Some(s) => {
                    w.conns[c].srv = s;
                    let mode = if w.servers[s].link_down { 3 } else { w.servers[s].listening };
                    match mode {
                        0 => w.at(now + rtt, Ev::ConnDone(c, 0)),
                        1 => w.at(now + rtt, Ev::ConnDone(c, ECONNREFUSED)),
                        2 => w.at(now + 3 * SEC, Ev::ConnDone(c, EHOSTUNREACH)),
                        _ => w.at(now + 127 * SEC, Ev::ConnDone(c, ETIMEDOUT)),
                    }
                }
            }
            if w.conns[c].nonblock {
                return fail(EINPROGRESS);
            }
            w.wait(me, Wait::Connect(c), None, false, false);
            let e = w.conns[c].so_error;
            if e != 0 {
                w.conns[c].so_error = 0;
                w.conns[c].state = CS::New;
                return fail(e);
            }
            0
        }
        _ => fail(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_getsockname, fd, a, len) as c_int };
    match obj(w, fd) {
        Some(SockRef::Udp(u)) => wr_addr(a, len, if w.udps[u].peer.is_some() { client_ip(me) } else { [0; 4] }, w.udps[u].port),
        Some(SockRef::Tcp(c)) => wr_addr(a, len, client_ip(me), w.conns[c].local_port),
        _ => return fail(EBADF),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let Some((_me, _g, w)) = enter_fd(fd) else { return raw!(SYS_getpeername, fd, a, len) as c_int };
    match obj(w, fd) {
        Some(SockRef::Udp(u)) => match w.udps[u].peer {
            Some((ip, p)) => wr_addr(a, len, ip, p),
            None => return fail(ENOTCONN),
        },
        Some(SockRef::Tcp(c)) => {
            if w.conns[c].state != CS::Up || w.conns[c].hup {
                return fail(ENOTCONN);
            }
            let s = w.conns[c].srv;
            let port = if w.plan.servers[s].gripper { 1338 } else { 1337 };
            wr_addr(a, len, w.plan.servers[s].ip, port)
        }
        _ => return fail(EBADF),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_setsockopt, fd, level, name, val, len) as c_int };
    w.charge(me);
    let v = if len as usize >= 4 { *(val as *const c_int) } else { 0 };
    match (obj(w, fd), level, name) {
        (Some(SockRef::Tcp(c)), SOL_SOCKET, SO_KEEPALIVE) => w.conns[c].keep = v != 0,
        (Some(SockRef::Tcp(c)), IPPROTO_TCP, TCP_KEEPIDLE) => w.conns[c].keep_idle = v as u64,
        (Some(SockRef::Tcp(c)), IPPROTO_TCP, TCP_KEEPCNT) => w.conns[c].keep_cnt = v as u64,
        (Some(SockRef::Tcp(c)), IPPROTO_TCP, TCP_KEEPINTVL) => w.conns[c].keep_intvl = v as u64,
        (Some(_), SOL_SOCKET, SO_RCVTIMEO) => {
            let tv = &*(val as *const timeval);
            ent(w, fd).rcvtimeo = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * 1000;
        }
        (Some(_), _, _) => {}
        (None, _, _) => return fail(EBADF),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    let Some((_me, _g, w)) = enter_fd(fd) else { return raw!(SYS_getsockopt, fd, level, name, val, len) as c_int };
    let mut r: c_int = 0;
    match (obj(w, fd), level, name) {
        (Some(SockRef::Tcp(c)), SOL_SOCKET, SO_ERROR) => {
            r = w.conns[c].so_error;
            w.conns[c].so_error = 0;
            if r == 0 {
                if let Some(e) = w.conns[c].err.take() {
                    r = e;
                }
            }
        }
        (Some(SockRef::Tcp(_)), SOL_SOCKET, SO_TYPE) => r = SOCK_STREAM,
        (Some(SockRef::Udp(_)), SOL_SOCKET, SO_TYPE) => r = SOCK_DGRAM,
        (Some(SockRef::Tcp(c)), SOL_SOCKET, SO_KEEPALIVE) => r = w.conns[c].keep as i32,
        (Some(_), SOL_SOCKET, SO_RCVTIMEO) => {
            let t = ent(w, fd).rcvtimeo;
            *(val as *mut timeval) = timeval { tv_sec: (t / SEC) as i64, tv_usec: ((t % SEC) / 1000) as i64 };
            *len = std::mem::size_of::<timeval>() as u32;
            return 0;
        }
        (None, _, _) => return fail(EBADF),
        _ => {}
    }
    *(val as *mut c_int) = r;
    *len = 4;
    0
}
fn set_nb(w: &mut World, fd: c_int, nb: bool) {
    ent(w, fd).nonblock = nb;
    let o = obj(w, fd);
    // O_NONBLOCK belongs to the open file description
    for i in 0..w.fds.len() {
        if w.fds[i].obj == o {
            w.fds[i].nonblock = nb;
        }
    }
    if let Some(SockRef::Tcp(c)) = o {
        w.conns[c].nonblock = nb;
    }
}
fn add_ref(w: &mut World, o: SockRef, d: i32) -> u32 {
    let r = match o {
        SockRef::Tcp(c) => &mut w.conns[c].refs,
        SockRef::Udp(u) => &mut w.udps[u].refs,
        SockRef::File(f) => &mut w.disk.open[f].refs,
        _ => return 0,
    };
    *r = (*r as i32 + d) as u32;
    *r
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let Some((_me, _g, w)) = enter_fd(fd) else { return raw!(SYS_fcntl, fd, cmd, arg) as c_int };
    let Some(o) = obj(w, fd) else { return fail(EBADF) };
    match cmd {
        F_GETFL => O_RDWR | if ent(w, fd).nonblock { O_NONBLOCK } else { 0 },
        F_SETFL => {
            set_nb(w, fd, arg as c_int & O_NONBLOCK != 0);
            0
        }
        F_GETFD => FD_CLOEXEC,
        F_SETFD => 0,
        F_DUPFD | F_DUPFD_CLOEXEC => {
            let e = *ent(w, fd);
            add_ref(w, o, 1);
            let n = alloc_fd(w, o, e.nonblock);
            ent(w, n).rcvtimeo = e.rcvtimeo;
            n
        }
        _ => fail(EINVAL),
    }
}
// variadic in C; on x86-64 the argument arrives in the same register
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    let Some((_me, _g, w)) = enter_fd(fd) else { return raw!(SYS_ioctl, fd, req, arg) as c_int };
    match req {
        FIONBIO => {
            let v = *(arg as *const c_int);
            set_nb(w, fd, v != 0);
            0
        }
        FIONREAD => {
            let n = match obj(w, fd) {
                Some(SockRef::Tcp(c)) => w.conns[c].rx.len(),
                Some(SockRef::Udp(u)) => w.udps[u].q.front().map(|x| x.0.len()).unwrap_or(0),
                _ => 0,
            };
            *(arg as *mut c_int) = n as c_int;
            0
        }
        FIOCLEX => 0,
        _ => fail(EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let Some((me, _g, w)) = enter_fd(fd) else {
        if fd >= FD_BASE {
            return 0; // a simulated descriptor outlived the run
        }
        return raw!(SYS_close, fd) as c_int;
    };
    let Some(o) = obj(w, fd) else { return fail(EBADF) };
    if !w.clients[me].dead {
        w.charge(me);
    }
    ent(w, fd).obj = None;
    if let SockRef::Epoll(_) = o {
        return 0;
    }
    if add_ref(w, o, -1) == 0 {
        match o {
            SockRef::Tcp(c) => w.close_conn(c),
            SockRef::Udp(u) => w.udps[u].closed = true,
            _ => {}
        }
        for e in w.eps.iter_mut() {
            e.w.retain(|x| x.obj != o);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_shutdown, fd, how) as c_int };
    w.charge(me);
    if let Some(SockRef::Tcp(c)) = obj(w, fd) {
        if how != SHUT_RD && !w.conns[c].wr_shut {
            w.conns[c].wr_shut = true;
            let t = (w.now + w.lat(true)).max(w.conns[c].last_to_server + 1);
            w.at(t, Ev::FinToServer(c));
        }
    }
    0
}

// ------------------------------------------------------------------ epoll, poll
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_epoll_create1, flags) as c_int };
    w.charge(me);
    w.eps.push(Ep { w: vec![] });
    let i = w.eps.len() - 1;
    alloc_fd(w, SockRef::Epoll(i), false)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create(_n: c_int) -> c_int {
    epoll_create1(0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    let Some((me, _g, w)) = enter_fd(ep) else { return raw!(SYS_epoll_ctl, ep, op, fd, ev) as c_int };
    w.charge(me);
    let Some(SockRef::Epoll(e)) = obj(w, ep) else { return fail(EBADF) };
    if fd < FD_BASE {
        return fail(EPERM);
    }
    let Some(o) = obj(w, fd) else { return fail(EBADF) };
    let pos = w.eps[e].w.iter().position(|x| x.fd == fd);
    match op {
        EPOLL_CTL_ADD => {
            if pos.is_some() {
                return fail(EEXIST);
            }
            let v = std::ptr::read_unaligned(ev);
            w.eps[e].w.push(Watch { obj: o, fd, events: v.events, data: v.u64, seen: 0 });
            // readiness at registration counts as an edge
            match o {
                SockRef::Tcp(c) => w.conns[c].rx_seq += 1,
                SockRef::Udp(u) => w.udps[u].rx_seq += 1,
                _ => {}
            }
        }
        EPOLL_CTL_MOD => {
            let Some(p) = pos else { return fail(ENOENT) };
            let v = std::ptr::read_unaligned(ev);
            w.eps[e].w[p].events = v.events;
            w.eps[e].w[p].data = v.u64;
            w.eps[e].w[p].seen = 0;
        }
        EPOLL_CTL_DEL => {
            let Some(p) = pos else { return fail(ENOENT) };
            w.eps[e].w.remove(p);
        }
        _ => return fail(EINVAL),
    }
    0
}
unsafe fn do_epoll_wait(me: usize, w: &mut World, ep: c_int, evs: *mut epoll_event, max: c_int, timeout_ns: i64) -> c_int {
    let Some(SockRef::Epoll(e)) = obj(w, ep) else { return fail(EBADF) };
    if max <= 0 {
        return fail(EINVAL);
    }
    w.charge(me);
    let deadline = if timeout_ns < 0 { None } else { Some(w.now + timeout_ns as u64) };
    let udp = w.eps[e].w.iter().find(|x| matches!(x.obj, SockRef::Udp(_))).map(|x| x.data);
    loop {
        let got = w.ep_collect(e, max as usize);
        if !got.is_empty() {
            for (i, (b, d)) in got.iter().enumerate() {
                std::ptr::write_unaligned(evs.add(i), epoll_event { events: *b, u64: *d });
            }
            return got.len() as c_int;
        }
        if timeout_ns == 0 {
            return 0;
        }
        match w.wait(me, Wait::Epoll(e), deadline, true, udp.is_some()) {
            WaitRes::Ready => {}
            WaitRes::Timeout => {
                // an event may have come in at the very last moment
                let got = w.ep_collect(e, max as usize);
                for (i, (b, d)) in got.iter().enumerate() {
                    std::ptr::write_unaligned(evs.add(i), epoll_event { events: *b, u64: *d });
                }
                return got.len() as c_int;
            }
            WaitRes::Intr => return fail(EINTR),
            WaitRes::Spurious => {
                std::ptr::write_unaligned(evs, epoll_event { events: EPOLLIN as u32, u64: udp.unwrap() });
                return 1;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    let Some((me, _g, w)) = enter_fd(ep) else { return raw!(SYS_epoll_wait, ep, evs, max, timeout) as c_int };
    do_epoll_wait(me, w, ep, evs, max, if timeout < 0 { -1 } else { timeout as i64 * MS as i64 })
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int, ss: *const sigset_t) -> c_int {
    let Some((me, _g, w)) = enter_fd(ep) else { return raw!(SYS_epoll_pwait, ep, evs, max, timeout, ss, 8usize) as c_int };
    do_epoll_wait(me, w, ep, evs, max, if timeout < 0 { -1 } else { timeout as i64 * MS as i64 })
}
unsafe fn do_poll(me: usize, w: &mut World, fds: *mut pollfd, n: nfds_t, timeout_ns: i64) -> c_int {
    w.charge(me);
    let s = std::slice::from_raw_parts_mut(fds, n as usize);
    let deadline = if timeout_ns < 0 { None } else { Some(w.now + timeout_ns as u64) };
    let mut v = vec![];
    for p in s.iter() {
        v.push((obj(w, p.fd).unwrap_or(SockRef::Null), p.events));
    }
    loop {
        let mut cnt = 0;
        for (i, p) in s.iter_mut().enumerate() {
            p.revents = if p.fd >= FD_BASE { w.poll_bits(v[i].0, v[i].1) } else { 0 };
            if p.revents != 0 {
                cnt += 1;
            }
        }
        if cnt > 0 || timeout_ns == 0 {
            return cnt;
        }
        let udp = v.iter().position(|x| matches!(x.0, SockRef::Udp(_)) && x.1 & POLLIN != 0);
        match w.wait(me, Wait::Poll(v.clone()), deadline, true, udp.is_some()) {
            WaitRes::Ready => {}
            WaitRes::Timeout => {
                if deadline.map(|d| w.now >= d).unwrap_or(false) {
                    let mut cnt = 0;
                    for (i, p) in s.iter_mut().enumerate() {
                        p.revents = w.poll_bits(v[i].0, v[i].1);
                        cnt += (p.revents != 0) as c_int;
                    }
                    return cnt;
                }
            }
            WaitRes::Intr => return fail(EINTR),
            WaitRes::Spurious => {
                s[udp.unwrap()].revents = POLLIN;
                return 1;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    let sim = n > 0 && (0..n as usize).any(|i| (*fds.add(i)).fd >= FD_BASE);
    if sim {
        if let Some((me, _g, w)) = enter() {
            return do_poll(me, w, fds, n, if timeout < 0 { -1 } else { timeout as i64 * MS as i64 });
        }
    } else if n == 0 {
        if let Some((me, _g, w)) = enter() {
            w.sleep(me, timeout.max(0) as u64 * MS);
            return 0;
        }
    }
    raw!(SYS_poll, fds, n, timeout) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut pollfd, n: nfds_t, ts: *const timespec, ss: *const sigset_t) -> c_int {
    let sim = n > 0 && (0..n as usize).any(|i| (*fds.add(i)).fd >= FD_BASE);
    if sim {
        if let Some((me, _g, w)) = enter() {
            let ns = if ts.is_null() { -1 } else { (*ts).tv_sec * SEC as i64 + (*ts).tv_nsec };
            return do_poll(me, w, fds, n, ns);
        }
    }
    raw!(SYS_ppoll, fds, n, ts, ss, 8usize) as c_int
}

// ------------------------------------------------------------------ data transfer
struct Recv {
    n: isize,
    full: usize,
    from: Option<([u8; 4], u16)>,
}
unsafe fn do_recv(me: usize, w: &mut World, fd: c_int, bufs: &[(*mut u8, usize)], flags: c_int) -> Recv {
    let bad = |e: i32| {
        set_errno(e);
        Recv { n: -1, full: 0, from: None }
    };
    let Some(o) = obj(w, fd) else { return bad(EBADF) };
    w.charge(me);
    let nb = ent(w, fd).nonblock || flags & MSG_DONTWAIT != 0;
    let tmo = ent(w, fd).rcvtimeo;
    let deadline = if tmo > 0 { Some(w.now + tmo) } else { None };
    let cap: usize = bufs.iter().map(|b| b.1).sum();
    let put = |data: &mut dyn Iterator<Item = u8>| -> usize {
        let mut n = 0;
        for (p, l) in bufs {
            for i in 0..*l {
                match data.next() {
                    Some(b) => {
                        *p.add(i) = b;
                        n += 1;
                    }
                    None => return n,
                }
            }
        }
        n
    };
    let mut got = 0usize;
    loop {
        match o {
            SockRef::Udp(u) => {
                if let Some((b, ip, port)) = w.udps[u].q.front() {
                    let full = b.len();
                    let n = put(&mut b.iter().copied());
                    let from = Some((*ip, *port));
                    let seen = (if b.len() >= 8 { rd_u64(b) } else { 0 }, *port);
                    if flags & MSG_PEEK == 0 {
                        w.udps[u].q.pop_front();
                        if w.udps[u].seen.len() == 512 {
                            w.udps[u].seen.pop_front();
                        }
                        w.udps[u].seen.push_back(seen);
                    }
                    let r = if flags & MSG_TRUNC != 0 { full } else { n };
                    w.tr(41, full as u64);
                    return Recv { n: r as isize, full, from };
                }
            }
            SockRef::Tcp(c) => {
                if w.conns[c].state != CS::Up {
                    return bad(ENOTCONN);
                }
                if !w.conns[c].rx.is_empty() && cap > 0 {
                    if flags & MSG_PEEK != 0 {
                        let n = put(&mut w.conns[c].rx.iter().copied());
                        return Recv { n: n as isize, full: n, from: None };
                    }
                    let mut skip = got;
                    let want = cap - got;
                    let k = want.min(w.conns[c].rx.len());
                    let part: Vec<u8> = w.conns[c].rx.drain(..k).collect();
                    let mut it = part.into_iter();
                    'o: for (p, l) in bufs {
                        let mut i = 0;
                        if skip >= *l {
                            skip -= *l;
                            continue;
                        }
                        i += skip;
                        skip = 0;
                        while i < *l {
                            match it.next() {
                                Some(b) => *p.add(i) = b,
                                None => break 'o,
                            }
                            i += 1;
                        }
                    }
                    got += k;
                    w.tr(42, k as u64);
                    if flags & MSG_WAITALL == 0 || got == cap {
                        return Recv { n: got as isize, full: got, from: None };
                    }
                }
                if got > 0 && (w.conns[c].fin || w.conns[c].err.is_some() || nb) {
                    return Recv { n: got as isize, full: got, from: None };
                }
                if w.conns[c].rx.is_empty() {
                    if let Some(e) = w.conns[c].err {
                        if flags & MSG_PEEK == 0 {
                            w.conns[c].err = None;
                        }
                        return bad(e);
                    }
                    if w.conns[c].fin {
                        return Recv { n: 0, full: 0, from: None };
                    }
                }
                if cap == 0 {
                    return Recv { n: 0, full: 0, from: None };
                }
            }
            _ => return bad(ENOTSOCK),
        }
        if nb {
            return bad(EAGAIN);
        }
        match w.wait(me, Wait::Read(o), deadline, true, false) {
            WaitRes::Ready => {}
            WaitRes::Timeout => {
                if deadline.is_some() && !w.readable(o) {
                    return bad(EAGAIN);
                }
            }
            _ => {
                if got > 0 {
                    return Recv { n: got as isize, full: got, from: None };
                }
                return bad(EINTR);
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    let Some((me, _g, w)) = enter_fd(fd) else {
        return raw!(SYS_recvfrom, fd, buf, len, flags, 0usize, 0usize) as ssize_t;
    };
    do_recv(me, w, fd, &[(buf as *mut u8, len)], flags).n
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, a: *mut sockaddr, al: *mut socklen_t) -> ssize_t {
    let Some((me, _g, w)) = enter_fd(fd) else {
        return raw!(SYS_recvfrom, fd, buf, len, flags, a, al) as ssize_t;
    };
    let r = do_recv(me, w, fd, &[(buf as *mut u8, len)], flags);
    if let Some((ip, p)) = r.from {
        wr_addr(a, al, ip, p);
    }
    r.n
}
unsafe fn iovs(p: *const iovec, n: usize) -> Vec<(*mut u8, usize)> {
    (0..n).map(|i| ((*p.add(i)).iov_base as *mut u8, (*p.add(i)).iov_len)).collect()
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_recvmsg, fd, m, flags) as ssize_t };
    let b = iovs((*m).msg_iov, (*m).msg_iovlen as usize);
    let cap: usize = b.iter().map(|x| x.1).sum();
    let r = do_recv(me, w, fd, &b, flags);
    if let Some((ip, p)) = r.from {
        wr_addr((*m).msg_name as *mut sockaddr, &mut (*m).msg_namelen, ip, p);
    }
    (*m).msg_flags = if r.full > cap { MSG_TRUNC } else { 0 };
    (*m).msg_controllen = 0;
    r.n
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_read, fd, buf, len) as ssize_t };
    if let Some(SockRef::File(f)) = obj(w, fd) {
        return file_read(me, w, f, &[(buf as *mut u8, len)]);
    }
    do_recv(me, w, fd, &[(buf as *mut u8, len)], 0).n
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, p: *const iovec, n: c_int) -> ssize_t {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_readv, fd, p, n) as ssize_t };
    let b = iovs(p, n as usize);
    if let Some(SockRef::File(f)) = obj(w, fd) {
        return file_read(me, w, f, &b);
    }
    do_recv(me, w, fd, &b, 0).n
}
unsafe fn do_send(me: usize, w: &mut World, fd: c_int, data: Vec<u8>, to: Option<([u8; 4], u16)>) -> ssize_t {
    let Some(o) = obj(w, fd) else { return failz(EBADF) };
    w.charge(me);
    match o {
        SockRef::Udp(u) => {
            let Some((ip, port)) = to.or(w.udps[u].peer) else { return failz(EDESTADDRREQ) };
            if w.udps[u].port == 0 {
                let p = new_port(w);
                w.udps[u].port = p;
            }
            let srv = (0..w.plan.servers.len()).find(|i| w.plan.servers[*i].ip == ip && !w.plan.servers[*i].gripper);
            // the sender of the state being answered, or of one read since then
            let cid = WireCmd::decode(&data).map(|c| c.id).unwrap_or(0);
            let seen = &w.udps[u].seen;
            let from = seen.iter().rposition(|x| x.0 == cid).unwrap_or(0);
            let to_ok = srv.is_some() && seen.iter().skip(from).any(|x| x.1 == port);
            let failed = w.fault(FK::SendErr);
            let cmd = WireCmd::decode(&data);
            let (t, s) = (w.now, w.nseq());
            let op = w.clients[me].cur_op;
            let id = cmd.as_ref().map(|c| c.id).unwrap_or(0);
            w.note(|| format!("client {} sends a {}-byte datagram (state {}, finish {}){}", me, data.len(), id, cmd.as_ref().map(|c| c.finished).unwrap_or(9), if failed.is_some() { " - fails" } else { "" }));
            w.tr(43, id);
            w.hist.cmds.push(CmdRec { client: me, op, t, s, srv, to_ok, failed: failed.is_some(), cmd, len: data.len(), raw: if data.len() == CMD_LEN { vec![] } else { data.clone() }, port: w.udps[u].port });
            if let Some(p) = failed {
                w.hist.senderr.push((t, me));
                return failz([ENETUNREACH, ENOBUFS, EPERM, ECONNREFUSED, EHOSTUNREACH][p as usize % 5]);
            }
            let n = data.len();
            if to_ok && w.servers[srv.unwrap()].udp == Some(u) {
                w.cmd_to_server(srv.unwrap(), me, data);
            }
            n as ssize_t
        }
        SockRef::Tcp(c) => {
            match w.conns[c].state {
                CS::Up => {}
                CS::Connecting => return failz(EAGAIN),
                _ => return failz(ENOTCONN),
            }
            if w.conns[c].wr_shut {
                return failz(EPIPE);
            }
            if w.conns[c].hup {
                if let Some(e) = w.conns[c].err.take() {
                    return failz(e);
                }
                return failz(EPIPE);
            }
            if data.is_empty() {
                return 0;
            }
            if w.fault(FK::Eintr).is_some() {
                w.probe("eintr_in_send");
                return failz(EINTR);
            }
            let mut n = data.len();
            if n > 1 {
                if let Some(p) = w.fault(FK::ShortWrite) {
                    n = 1 + p as usize % (n - 1);
                    w.probe("short_tcp_write");
                }
            }
            let mut t = w.now + w.lat(true);
            if let Some(p) = w.fault(FK::ReqDelay) {
                t += p % (30 * MS);
            }
            let t = t.max(w.conns[c].last_to_server);
            w.conns[c].last_to_server = t;
            w.tr(44, n as u64);
            w.conns[c].c2s_total += n as u64;
            if let Some(op) = w.clients[me].cur_op {
                let e = w.conns[c].c2s_total;
                w.conns[c].sent_ops.push_back((e, op));
            }
            let srv = w.conns[c].srv;
            if w.servers[srv].link_down {
                w.conns[c].unacked = true;
            }
            w.conns[c].fly_s.extend(&data[..n]);
            w.at(t, Ev::TcpToServer { conn: c, bytes: data[..n].to_vec() });
            n as ssize_t
        }
        SockRef::File(f) => file_write(me, w, f, &data),
        _ => failz(EINVAL),
    }
}
unsafe fn bytes(buf: *const c_void, len: usize) -> Vec<u8> {
    std::slice::from_raw_parts(buf as *const u8, len).to_vec()
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    let Some((me, _g, w)) = enter_fd(fd) else {
        return raw!(SYS_sendto, fd, buf, len, flags, 0usize, 0usize) as ssize_t;
    };
    do_send(me, w, fd, bytes(buf, len), None)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, a: *const sockaddr, al: socklen_t) -> ssize_t {
    let Some((me, _g, w)) = enter_fd(fd) else {
        return raw!(SYS_sendto, fd, buf, len, flags, a, al) as ssize_t;
    };
    let to = rd_addr(a, al);
    do_send(me, w, fd, bytes(buf, len), to)
}
unsafe fn gather(p: *const iovec, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        let io = &*p.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_sendmsg, fd, m, flags) as ssize_t };
    let to = rd_addr((*m).msg_name as *const sockaddr, (*m).msg_namelen);
    do_send(me, w, fd, gather((*m).msg_iov, (*m).msg_iovlen as usize), to)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if fd < FD_BASE {
        // client output to the terminal is not interesting
        if (fd == 1 || fd == 2) && sim_me().is_some() {
            return len as ssize_t;
        }
        return raw!(SYS_write, fd, buf, len) as ssize_t;
    }
    let Some((me, _g, w)) = enter_fd(fd) else { return failz(EBADF) };
    do_send(me, w, fd, bytes(buf, len), None)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, p: *const iovec, n: c_int) -> ssize_t {
    if fd < FD_BASE {
        if (fd == 1 || fd == 2) && sim_me().is_some() {
            return gather(p, n as usize).len() as ssize_t;
        }
        return raw!(SYS_writev, fd, p, n) as ssize_t;
    }
    let Some((me, _g, w)) = enter_fd(fd) else { return failz(EBADF) };
    do_send(me, w, fd, gather(p, n as usize), None)
}

// ------------------------------------------------------------------ names
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const addrinfo, res: *mut *mut addrinfo) -> c_int {
    let Some((me, _g, w)) = enter() else {
        let f: extern "C" fn(*const c_char, *const c_char, *const addrinfo, *mut *mut addrinfo) -> c_int =
            std::mem::transmute(next_sym("getaddrinfo"));
        return f(node, service, hints, res);
    };
    w.charge(me);
    let name = if node.is_null() { String::new() } else { CStr::from_ptr(node).to_string_lossy().to_string() };
    let Some(s) = (0..w.plan.servers.len()).find(|i| w.plan.servers[*i].host == name || ip_str(w.plan.servers[*i].ip) == name) else {
        w.sleep(me, 5 * MS);
        return EAI_NONAME;
    };
    w.sleep(me, 3 * MS);
    match w.servers[s].dns {
        0 => {}
        1 => return EAI_NONAME,
        2 => return EAI_AGAIN,
        3 => return EAI_FAIL,
        _ => return EAI_NODATA,
    }
    let sa = Box::into_raw(Box::new(sockaddr_in {
        sin_family: AF_INET as u16,
        sin_port: 0,
        sin_addr: in_addr { s_addr: u32::from_ne_bytes(w.plan.servers[s].ip) },
        sin_zero: [0; 8],
    }));
    *res = Box::into_raw(Box::new(addrinfo {
        ai_flags: 0,
        ai_family: AF_INET,
        ai_socktype: SOCK_STREAM,
        ai_protocol: 0,
        ai_addrlen: std::mem::size_of::<sockaddr_in>() as u32,
        ai_addr: sa as *mut sockaddr,
        ai_canonname: std::ptr::null_mut(),
        ai_next: std::ptr::null_mut(),
    }));
    0
}
pub fn ip_str(ip: [u8; 4]) -> String {
    format!("{}.{}.{}.{}", ip[0], ip[1], ip[2], ip[3])
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(res: *mut addrinfo) {
    if sim_me().is_some() {
        return; // leaked on purpose, the process is short-lived
    }
    let f: extern "C" fn(*mut addrinfo) = std::mem::transmute(next_sym("freeaddrinfo"));
    f(res)
}

// ------------------------------------------------------------------ time and identity
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    let Some((_me, _g, w)) = enter() else { return raw!(SYS_clock_gettime, clk, ts) as c_int };
    w.now += 25; // reading the clock takes time too; a loop polling it terminates
    let t: i128 = if clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE {
        1_700_000_000 * SEC as i128 + w.now as i128 + w.wall_delta as i128
    } else {
        5000 * SEC as i128 + w.now as i128
    };
    (*ts).tv_sec = (t / SEC as i128) as i64;
    (*ts).tv_nsec = (t % SEC as i128) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    let Some((_me, _g, w)) = enter() else { return raw!(SYS_gettimeofday, tv, tz) as c_int };
    w.now += 25;
    let t = 1_700_000_000 * SEC as i128 + w.now as i128 + w.wall_delta as i128;
    (*tv).tv_sec = (t / SEC as i128) as i64;
    (*tv).tv_usec = ((t % SEC as i128) / 1000) as i64;
    0
}
unsafe fn do_sleep(me: usize, w: &mut World, ns: u64, rem: *mut timespec) -> c_int {
    if ns > 0 {
        if let Some(p) = w.fault(FK::Eintr) {
            let d = p % ns;
            w.sleep(me, d);
            if !rem.is_null() {
                (*rem).tv_sec = ((ns - d) / SEC) as i64;
                (*rem).tv_nsec = ((ns - d) % SEC) as i64;
            }
            return EINTR;
        }
    }
    w.sleep(me, ns);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_nanosleep, req, rem) as c_int };
    let ns = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    let r = do_sleep(me, w, ns, rem);
    if r != 0 {
        return fail(r);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    let Some((me, _g, w)) = enter() else {
        let r = raw!(SYS_clock_nanosleep, clk, flags, req, rem);
        return if r < 0 { *__errno_location() } else { 0 };
    };
    let ns = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    let ns = if flags & TIMER_ABSTIME != 0 { ns.saturating_sub(5000 * SEC + w.now) } else { ns };
    do_sleep(me, w, ns, if flags & TIMER_ABSTIME != 0 { std::ptr::null_mut() } else { rem })
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = timespec { tv_sec: us as i64 / 1_000_000, tv_nsec: us as i64 % 1_000_000 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut time_t) -> time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_sched_yield) as c_int };
    w.charge(me);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let Some((_me, _g, w)) = enter() else { return raw!(SYS_getrandom, buf, len, flags) as ssize_t };
    for i in 0..len {
        *(buf as *mut u8).add(i) = h3(w.seed, 31, i as u64) as u8;
    }
    len as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    match sim_me() {
        Some(c) => 1000 + c as pid_t,
        None => raw!(SYS_getpid) as pid_t,
    }
}

// ------------------------------------------------------------------ disk
unsafe fn path_of(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().to_string()
}
fn is_sim_path(p: &str) -> bool {
    p.starts_with("/tmp/") || p.starts_with("/var/tmp/") || p.starts_with("/dev/shm/")
}
fn disk_ev(w: &mut World, me: usize, e: DiskEv) {
    let (t, s) = (w.now, w.nseq());
    w.note(|| format!("client {} disk {:?}", me, e));
    w.hist.disk.push((t, s, me, e));
}
fn maybe_crash(me: usize, w: &mut World) {
    if w.fault(FK::DiskCrash).is_some() {
        w.crash_client(me);
    }
}
unsafe fn do_open(me: usize, w: &mut World, path: String, flags: c_int) -> c_int {
    w.charge(me);
    maybe_crash(me, w);
    let create = flags & O_CREAT != 0;
    let wr = flags & O_ACCMODE != O_RDONLY;
    if wr {
        if let Some(p) = w.fault(FK::DiskOpenErr) {
            disk_ev(w, me, DiskEv::Open { path, create, ok: false });
            return fail([EACCES, ENOSPC, EMFILE, EROFS][p as usize % 4]);
        }
    }
    let ino = match w.disk.dir.get(&path) {
        Some(i) => {
            if create && flags & O_EXCL != 0 {
                return fail(EEXIST);
            }
            let i = *i;
            if flags & O_TRUNC != 0 && wr {
                w.disk.inodes[i].data.clear();
            }
            i
        }
        None => {
            if !create {
                return fail(ENOENT);
            }
            w.disk.inodes.push(Default::default());
            let i = w.disk.inodes.len() - 1;
            w.disk.dir.insert(path.clone(), i);
            i
        }
    };
    disk_ev(w, me, DiskEv::Open { path: path.clone(), create, ok: true });
    w.disk.open.push(OFile { ino, path, pos: 0, append: flags & O_APPEND != 0, writable: wr, refs: 1 });
    let f = w.disk.open.len() - 1;
    maybe_crash(me, w);
    alloc_fd(w, SockRef::File(f), false)
}
unsafe fn file_write(me: usize, w: &mut World, f: usize, data: &[u8]) -> ssize_t {
    if !w.disk.open[f].writable {
        return failz(EBADF);
    }
    let path = w.disk.open[f].path.clone();
    if w.fault(FK::Eintr).is_some() {
        return failz(EINTR);
    }
    let mut n = data.len();
    let mut err = 0;
    if n > 0 {
        if let Some(p) = w.fault(FK::DiskEnospc) {
            // the disk fills up: part of the data may still fit
            let k = if p & 1 == 0 { 0 } else { (p >> 1) as usize % n };
            n = k;
            w.rates[fki(FK::DiskEnospc)] = if w.explicit.is_none() { 1.0 } else { 0.0 };
            if k == 0 {
                err = ENOSPC;
            }
        } else if w.fault(FK::DiskEio).is_some() {
            err = EIO;
        } else if let Some(p) = w.fault(FK::DiskShort) {
            if n > 1 {
                n = 1 + p as usize % (n - 1);
                w.probe("short_disk_write");
            }
        }
    }
    if err != 0 {
        disk_ev(w, me, DiskEv::Write { path, n: 0, ok: false });
        return failz(err);
    }
    // a crash may tear the write
    let torn = w.fault(FK::DiskCrash).map(|p| if n == 0 { 0 } else { p as usize % (n + 1) });
    let k = torn.unwrap_or(n);
    let ino = w.disk.open[f].ino;
    let pos = if w.disk.open[f].append { w.disk.inodes[ino].data.len() } else { w.disk.open[f].pos };
    let d = &mut w.disk.inodes[ino].data;
    if d.len() < pos + k {
        d.resize(pos + k, 0);
    }
    d[pos..pos + k].copy_from_slice(&data[..k]);
    w.disk.open[f].pos = pos + k;
    disk_ev(w, me, DiskEv::Write { path, n: k, ok: true });
    if torn.is_some() {
        w.probe("torn_disk_write");
        w.crash_client(me);
    }
    maybe_crash(me, w);
    n as ssize_t
}
unsafe fn file_read(me: usize, w: &mut World, f: usize, bufs: &[(*mut u8, usize)]) -> ssize_t {
    w.charge(me);
    let ino = w.disk.open[f].ino;
    let mut pos = w.disk.open[f].pos;
    let mut n = 0;
    for (p, l) in bufs {
        for i in 0..*l {
            if pos >= w.disk.inodes[ino].data.len() {
                break;
            }
            *p.add(i) = w.disk.inodes[ino].data[pos];
            pos += 1;
            n += 1;
        }
    }
    w.disk.open[f].pos = pos;
    n
}
unsafe fn open_any(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(me) = sim_me() {
        let path = path_of(p);
        let sim = is_sim_path(&path) || flags & O_ACCMODE != O_RDONLY || flags & O_CREAT != 0;
        if path == "/sys/kernel/realtime" {
            let _g = InSim::new();
            let w = world();
            let k = w.clients[me].rt.kernel;
            rt_ev(w, me, RtEv::KernelCheck(k));
            if !k {
                return fail(ENOENT);
            }
            return alloc_fd(w, SockRef::Null, false);
        }
        if sim {
            let _g = InSim::new();
            return do_open(me, world(), path, flags);
        }
    }
    raw!(SYS_openat, dirfd, p, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_any(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_any(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_any(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_any(d, p, flags, mode)
}
enum St {
    File(usize),
    Dir,
    None,
}
unsafe fn sim_stat(me: usize, path: &str) -> Option<St> {
    let _g = InSim::new();
    let w = world();
    if path == "/sys/kernel/realtime" {
        w.charge(me);
        let k = w.clients[me].rt.kernel;
        rt_ev(w, me, RtEv::KernelCheck(k));
        return Some(if k { St::File(2) } else { St::None });
    }
    if let Some(c) = w.disk.content(path) {
        let n = c.len();
        w.charge(me);
        // may be gone by now
        return Some(if w.disk.content(path).is_some() { St::File(n) } else { St::None });
    }
    if is_sim_path(path) {
        w.charge(me);
        return Some(match w.disk.content(path) {
            Some(c) => St::File(c.len()),
            None => St::None,
        });
    }
    if ["/tmp", "/tmp/", "/var/tmp", "/dev/shm"].contains(&path) {
        return Some(St::Dir);
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if let Some(me) = sim_me() {
        let r = if d >= FD_BASE {
            let _g = InSim::new();
            let w = world();
            match obj(w, d) {
                Some(SockRef::File(f)) => Some(St::File(w.disk.inodes[w.disk.open[f].ino].data.len())),
                Some(_) => Some(St::File(0)),
                None => return fail(EBADF),
            }
        } else if !p.is_null() {
            sim_stat(me, &path_of(p))
        } else {
            None
        };
        if let Some(r) = r {
            if buf.is_null() {
                return fail(EFAULT);
            }
            std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
            match r {
                St::None => return fail(ENOENT),
                St::File(n) => {
                    (*buf).stx_mask = mask;
                    (*buf).stx_mode = (S_IFREG | 0o644) as u16;
                    (*buf).stx_size = n as u64;
                }
                St::Dir => {
                    (*buf).stx_mask = mask;
                    (*buf).stx_mode = (S_IFDIR | 0o777) as u16;
                }
            }
            return 0;
        }
    }
    raw!(SYS_statx, d, p, flags, mask, buf) as c_int
}
unsafe fn any_stat(p: *const c_char, buf: *mut stat64, l: bool) -> c_int {
    if let Some(me) = sim_me() {
        if let Some(r) = sim_stat(me, &path_of(p)) {
            std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<stat64>());
            match r {
                St::None => return fail(ENOENT),
                St::File(n) => {
                    (*buf).st_mode = S_IFREG | 0o644;
                    (*buf).st_size = n as i64;
                }
                St::Dir => (*buf).st_mode = S_IFDIR | 0o777,
            }
            return 0;
        }
    }
    raw!(SYS_newfstatat, AT_FDCWD, p, buf, if l { AT_SYMLINK_NOFOLLOW } else { 0 }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut libc::stat64) -> c_int {
    any_stat(p, buf, false)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, buf: *mut libc::stat64) -> c_int {
    any_stat(p, buf, true)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    let Some((_me, _g, w)) = enter_fd(fd) else { return raw!(SYS_fstat, fd, buf) as c_int };
    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<stat64>());
    if let Some(SockRef::File(f)) = obj(w, fd) {
        (*buf).st_mode = S_IFREG | 0o644;
        (*buf).st_size = w.disk.inodes[w.disk.open[f].ino].data.len() as i64;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if let Some(me) = sim_me() {
        match sim_stat(me, &path_of(p)) {
            Some(St::None) => return fail(ENOENT),
            Some(_) => return 0,
            None => {}
        }
    }
    raw!(SYS_access, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if sim_me().is_some() {
        return access(p, mode);
    }
    raw!(SYS_faccessat, d, p, mode, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let Some((_me, _g, w)) = enter_fd(fd) else { return raw!(SYS_lseek, fd, off, whence) as off64_t };
    let Some(SockRef::File(f)) = obj(w, fd) else { return fail(ESPIPE) as i64 };
    let len = w.disk.inodes[w.disk.open[f].ino].data.len() as i64;
    let base = match whence {
        SEEK_SET => 0,
        SEEK_CUR => w.disk.open[f].pos as i64,
        _ => len,
    };
    let n = base + off;
    if n < 0 {
        return fail(EINVAL) as i64;
    }
    w.disk.open[f].pos = n as usize;
    n
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_fsync, fd) as c_int };
    w.charge(me);
    if w.fault(FK::DiskEio).is_some() {
        if let Some(SockRef::File(f)) = obj(w, fd) {
            let path = w.disk.open[f].path.clone();
            disk_ev(w, me, DiskEv::Write { path, n: 0, ok: false });
        }
        return fail(EIO);
    }
    maybe_crash(me, w);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let Some((me, _g, w)) = enter_fd(fd) else { return raw!(SYS_ftruncate, fd, len) as c_int };
    w.charge(me);
    if let Some(SockRef::File(f)) = obj(w, fd) {
        let ino = w.disk.open[f].ino;
        w.disk.inodes[ino].data.resize(len as usize, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    let Some((_me, _g, _w)) = enter_fd(fd) else { return raw!(SYS_fchmod, fd, mode) as c_int };
    0
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if sim_me().is_some() {
        return 0;
    }
    raw!(SYS_chmod, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_rename, a, b) as c_int };
    w.charge(me);
    maybe_crash(me, w);
    let (from, to) = (path_of(a), path_of(b));
    if w.fault(FK::DiskRenameErr).is_some() {
        disk_ev(w, me, DiskEv::Rename { from, to, ok: false });
        return fail(EACCES);
    }
    match w.disk.dir.remove(&from) {
        None => fail(ENOENT),
        Some(i) => {
            w.disk.dir.insert(to.clone(), i);
            disk_ev(w, me, DiskEv::Rename { from, to, ok: true });
            maybe_crash(me, w);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char) -> c_int {
    if sim_me().is_some() {
        return rename(a, b);
    }
    raw!(SYS_renameat, ad, a, bd, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char, flags: c_uint) -> c_int {
    if sim_me().is_some() {
        return if flags == 0 { rename(a, b) } else { fail(EINVAL) };
    }
    raw!(SYS_renameat2, ad, a, bd, b, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, len: size_t, flags: c_uint) -> ssize_t {
    if sim_me().is_some() && (a >= FD_BASE || b >= FD_BASE) {
        return failz(EXDEV); // std then copies with read and write
    }
    raw!(SYS_copy_file_range, a, ao, b, bo, len, flags) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut off64_t, len: size_t) -> ssize_t {
    if sim_me().is_some() && (a >= FD_BASE || b >= FD_BASE) {
        return failz(EINVAL);
    }
    raw!(SYS_sendfile, a, b, off, len) as ssize_t
}
unsafe fn at<T>(fd: c_int, off: off64_t, f: impl FnOnce() -> T) -> T {
    let old = lseek64(fd, 0, SEEK_CUR);
    lseek64(fd, off, SEEK_SET);
    let r = f();
    lseek64(fd, old, SEEK_SET);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: size_t, off: off64_t) -> ssize_t {
    if sim_me().is_some() && fd >= FD_BASE {
        return at(fd, off, || read(fd, buf, len));
    }
    raw!(SYS_pread64, fd, buf, len, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: size_t, off: off64_t) -> ssize_t {
    if sim_me().is_some() && fd >= FD_BASE {
        return at(fd, off, || write(fd, buf, len));
    }
    raw!(SYS_pwrite64, fd, buf, len, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(_ad: c_int, a: *const c_char, _bd: c_int, b: *const c_char, _f: c_int) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_linkat, _ad, a, _bd, b, _f) as c_int };
    w.charge(me);
    let (from, to) = (path_of(a), path_of(b));
    let Some(i) = w.disk.dir.get(&from).copied() else { return fail(ENOENT) };
    if w.disk.dir.contains_key(&to) {
        return fail(EEXIST);
    }
    w.disk.dir.insert(to, i);
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_unlink, p) as c_int };
    w.charge(me);
    maybe_crash(me, w);
    let path = path_of(p);
    if w.fault(FK::DiskUnlinkErr).is_some() {
        disk_ev(w, me, DiskEv::Unlink { path, ok: false });
        return fail(EACCES);
    }
    match w.disk.dir.remove(&path) {
        None => fail(ENOENT),
        Some(_) => {
            disk_ev(w, me, DiskEv::Unlink { path, ok: true });
            maybe_crash(me, w);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if sim_me().is_some() {
        return unlink(p);
    }
    raw!(SYS_unlinkat, d, p, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if sim_me().is_some() {
        return 0;
    }
    raw!(SYS_mkdir, p, mode) as c_int
}

// ------------------------------------------------------------------ dynamic loading
pub const FAKE_HANDLE: usize = 0x7000_0000_0000_1230;
static mut DLERR: [u8; 256] = [0; 256];
static mut DLERR_SET: bool = false;
#[no_mangle]
pub unsafe extern "C" fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void {
    if let Some(me) = sim_me() {
        if !p.is_null() {
            let path = path_of(p);
            if is_sim_path(&path) {
                let _g = InSim::new();
                let w = world();
                w.charge(me);
                let good = w.disk.content(&path).map(|c| *c == w.blob && !c.is_empty());
                disk_ev(w, me, DiskEv::Dlopen { path: path.clone(), good: good == Some(true), srv: if good.is_none() { -1 } else { 0 } });
                if good == Some(true) {
                    return FAKE_HANDLE as *mut c_void;
                }
                let m = if good.is_none() { "cannot open shared object file: No such file or directory" } else { "file too short" };
                let s = format!("{}: {}\0", path, m);
                DLERR[..s.len().min(255)].copy_from_slice(&s.as_bytes()[..s.len().min(255)]);
                DLERR_SET = true;
                return std::ptr::null_mut();
            }
        }
    }
    let _g = if ME.try_with(|m| m.get()).unwrap_or(usize::MAX) != usize::MAX { Some(InSim::new()) } else { None };
    let f: extern "C" fn(*const c_char, c_int) -> *mut c_void = std::mem::transmute(next_sym("dlopen"));
    f(p, flags)
}
#[no_mangle]
pub unsafe extern "C" fn dlerror() -> *mut c_char {
    if sim_me().is_some() && DLERR_SET {
        DLERR_SET = false;
        return &raw mut DLERR as *mut c_char;
    }
    let f: extern "C" fn() -> *mut c_char = std::mem::transmute(next_sym("dlerror"));
    f()
}
#[no_mangle]
pub unsafe extern "C" fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void {
    if h as usize == FAKE_HANDLE {
        let n = path_of(name);
        let r = model_stub::lookup(&n);
        if r.is_null() {
            let s = format!("undefined symbol: {}\0", n);
            DLERR[..s.len().min(255)].copy_from_slice(&s.as_bytes()[..s.len().min(255)]);
            DLERR_SET = true;
        }
        return r;
    }
    real_dlsym(h, name)
}
#[no_mangle]
pub unsafe extern "C" fn dlclose(h: *mut c_void) -> c_int {
    if h as usize == FAKE_HANDLE {
        return 0;
    }
    let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next_sym("dlclose"));
    f(h)
}

// ------------------------------------------------------------------ real-time rights
fn rt_ev(w: &mut World, me: usize, e: RtEv) {
    let (t, s) = (w.now, w.nseq());
    w.note(|| format!("client {} realtime {:?}", me, e));
    w.hist.rt.push((t, s, me, e));
}
#[no_mangle]
pub unsafe extern "C" fn sched_get_priority_max(policy: c_int) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_sched_get_priority_max, policy) as c_int };
    let r = if w.clients[me].rt.priomax_fail {
        -1
    } else if policy == SCHED_FIFO || policy == SCHED_RR {
        99
    } else {
        0
    };
    rt_ev(w, me, RtEv::PrioMax(r));
    if r < 0 {
        return fail(EINVAL);
    }
    r
}
fn do_sched(me: usize, w: &mut World, policy: c_int, prio: c_int) -> bool {
    w.charge(me);
    let ok = !w.clients[me].rt.sched_fail;
    rt_ev(w, me, RtEv::Sched { policy: policy & !SCHED_RESET_ON_FORK, prio, ok });
    ok
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setschedparam(t: pthread_t, policy: c_int, p: *const sched_param) -> c_int {
    let Some((me, _g, w)) = enter() else {
        let f: extern "C" fn(pthread_t, c_int, *const sched_param) -> c_int = std::mem::transmute(next_sym("pthread_setschedparam"));
        return f(t, policy, p);
    };
    if do_sched(me, w, policy, (*p).sched_priority) {
        0
    } else {
        EPERM
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_setscheduler(pid: pid_t, policy: c_int, p: *const sched_param) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_sched_setscheduler, pid, policy, p) as c_int };
    if do_sched(me, w, policy, (*p).sched_priority) {
        0
    } else {
        fail(EPERM)
    }
}
#[no_mangle]
pub unsafe extern "C" fn mlockall(flags: c_int) -> c_int {
    let Some((me, _g, w)) = enter() else { return raw!(SYS_mlockall, flags) as c_int };
    w.charge(me);
    let ok = !w.clients[me].rt.mlock_fail;
    rt_ev(w, me, RtEv::Mlock { flags, ok });
    if ok {
        0
    } else {
        fail(ENOMEM)
    }
}
#[allow(dead_code)]
fn unused(w: &mut World) {
    harness(w, "");
}
