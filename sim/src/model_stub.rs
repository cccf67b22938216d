//! Stand-in for the robot's model library: every function is a smooth pseudo-random function of
//! all of its arguments, different for every symbol, so that a wrong function or a wrong argument
//! shows up as a wrong number.
use crate::rng::*;
use libc::c_void;

pub fn key(name: &str) -> u64 {
    let mut h = 0x1234u64;
    for b in name.bytes() {
        h = mix(h ^ b as u64);
    }
    h
}
pub fn squash(x: f64) -> f64 {
    x / (1. + x.abs())
}
/// reference: what symbol `name` yields for these arguments
pub fn eval(name: &str, args: &[&[f64]], n: usize) -> Vec<f64> {
    let k = key(name);
    (0..n)
        .map(|i| {
            let mut s = unit(h3(k, 1, i as u64)) * 2. - 1.;
            for (a, v) in args.iter().enumerate() {
                for (j, x) in v.iter().enumerate() {
                    let c = unit(h3(k, 100 + a as u64 * 100 + j as u64, i as u64)) * 2. - 1.;
                    s += c * squash(*x);
                }
            }
            s
        })
        .collect()
}
unsafe fn put(out: *mut f64, v: Vec<f64>) {
    for (i, x) in v.into_iter().enumerate() {
        *out.add(i) = x;
    }
}
unsafe fn sl<'a>(p: *const f64, n: usize) -> &'a [f64] {
    std::slice::from_raw_parts(p, n)
}
macro_rules! f0 { ($f:ident, $n:expr, $o:expr) => {
    unsafe extern "C" fn $f(out: *mut f64) { put(out, eval($n, &[], $o)) } } }
macro_rules! f1 { ($f:ident, $n:expr, $o:expr) => {
    unsafe extern "C" fn $f(q: *const f64, out: *mut f64) { put(out, eval($n, &[sl(q, 7)], $o)) } } }
macro_rules! f2 { ($f:ident, $n:expr, $o:expr) => {
    unsafe extern "C" fn $f(q: *const f64, t: *const f64, out: *mut f64) { put(out, eval($n, &[sl(q, 7), sl(t, 16)], $o)) } } }
f0!(ji1, "Ji_J_J1", 42);
f1!(ji2, "Ji_J_J2", 42);
f1!(ji3, "Ji_J_J3", 42);
f1!(ji4, "Ji_J_J4", 42);
f1!(ji5, "Ji_J_J5", 42);
f1!(ji6, "Ji_J_J6", 42);
f1!(ji7, "Ji_J_J7", 42);
f1!(ji8, "Ji_J_J8", 42);
f2!(ji9, "Ji_J_J9", 42);
f0!(oj1, "O_J_J1", 42);
f1!(oj2, "O_J_J2", 42);
f1!(oj3, "O_J_J3", 42);
f1!(oj4, "O_J_J4", 42);
f1!(oj5, "O_J_J5", 42);
f1!(oj6, "O_J_J6", 42);
f1!(oj7, "O_J_J7", 42);
f1!(oj8, "O_J_J8", 42);
f2!(oj9, "O_J_J9", 42);
f1!(ot1, "O_T_J1", 16);
f1!(ot2, "O_T_J2", 16);
f1!(ot3, "O_T_J3", 16);
f1!(ot4, "O_T_J4", 16);
f1!(ot5, "O_T_J5", 16);
f1!(ot6, "O_T_J6", 16);
f1!(ot7, "O_T_J7", 16);
f1!(ot8, "O_T_J8", 16);
f2!(ot9, "O_T_J9", 16);
unsafe extern "C" fn m_ne(q: *const f64, i: *const f64, m: f64, x: *const f64, out: *mut f64) {
    put(out, eval("M_NE", &[sl(q, 7), sl(i, 9), &[m], sl(x, 3)], 49))
}
unsafe extern "C" fn c_ne(q: *const f64, dq: *const f64, i: *const f64, m: f64, x: *const f64, out: *mut f64) {
    put(out, eval("c_NE", &[sl(q, 7), sl(dq, 7), sl(i, 9), &[m], sl(x, 3)], 7))
}
unsafe extern "C" fn g_ne(q: *const f64, g: *const f64, m: f64, x: *const f64, out: *mut f64) {
    put(out, eval("g_NE", &[sl(q, 7), sl(g, 3), &[m], sl(x, 3)], 7))
}
pub fn lookup(n: &str) -> *mut c_void {
    match n {
        "Ji_J_J1" => ji1 as *mut c_void,
        "Ji_J_J2" => ji2 as *mut c_void,
        "Ji_J_J3" => ji3 as *mut c_void,
        "Ji_J_J4" => ji4 as *mut c_void,
        "Ji_J_J5" => ji5 as *mut c_void,
        "Ji_J_J6" => ji6 as *mut c_void,
        "Ji_J_J7" => ji7 as *mut c_void,
        "Ji_J_J8" => ji8 as *mut c_void,
        "Ji_J_J9" => ji9 as *mut c_void,
        "O_J_J1" => oj1 as *mut c_void,
        "O_J_J2" => oj2 as *mut c_void,
        "O_J_J3" => oj3 as *mut c_void,
        "O_J_J4" => oj4 as *mut c_void,
        "O_J_J5" => oj5 as *mut c_void,
        "O_J_J6" => oj6 as *mut c_void,
        "O_J_J7" => oj7 as *mut c_void,
        "O_J_J8" => oj8 as *mut c_void,
        "O_J_J9" => oj9 as *mut c_void,
        "O_T_J1" => ot1 as *mut c_void,
        "O_T_J2" => ot2 as *mut c_void,
        "O_T_J3" => ot3 as *mut c_void,
        "O_T_J4" => ot4 as *mut c_void,
        "O_T_J5" => ot5 as *mut c_void,
        "O_T_J6" => ot6 as *mut c_void,
        "O_T_J7" => ot7 as *mut c_void,
        "O_T_J8" => ot8 as *mut c_void,
        "O_T_J9" => ot9 as *mut c_void,
        "M_NE" => m_ne as *mut c_void,
        "c_NE" => c_ne as *mut c_void,
        "g_NE" => g_ne as *mut c_void,
        _ => std::ptr::null_mut(),
    }
}
