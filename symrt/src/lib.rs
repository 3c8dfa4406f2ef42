//! The boundary between harnesses and whatever runs them.
//!
//! Under symx every function here is intercepted by name: inputs are solver variables and
//! assertions are solver queries. Compiled natively (the bodies below) the same harness replays a
//! case file: inputs come from the file, hashes are SHA-256 (or the values a solver model chose,
//! when the file lists them), assertions and observations are reported on exit.
use std::cell::RefCell;
use std::collections::HashMap;
use std::collections::VecDeque;

pub enum In {
    V(u64),
    B(Vec<u8>),
}
#[derive(Default)]
pub struct Rt {
    pub inputs: VecDeque<In>,
    pub hashes: HashMap<Vec<u8>, [u8; 32]>,
    pub obs: Vec<(u64, u64)>,
    pub failed: Vec<u64>,
    pub assumed_false: u64,
    pub reach: u64,
    pub expect_panic: bool,
    pub stopped: bool,
    pub starved: bool,
}
thread_local! {
    pub static RT: RefCell<Rt> = RefCell::new(Rt::default());
}
/// payload of the unwinding used by sym_stop / a false assumption in native runs
pub struct StopToken;

fn pop() -> In {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        match r.inputs.pop_front() {
            Some(x) => x,
            None => {
                r.starved = true;
                drop(r);
                std::panic::panic_any(StopToken)
            }
        }
    })
}
fn val() -> u64 {
    match pop() {
        In::V(v) => v,
        In::B(_) => panic!("case file: value expected"),
    }
}
fn bytes(n: usize) -> Vec<u8> {
    match pop() {
        In::B(b) if b.len() == n => b,
        _ => panic!("case file: {n} bytes expected"),
    }
}

#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_bits(_n: u64) -> u64 {
    val()
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_uint(_bits: u64) -> u64 {
    val()
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_choice(_n: u64) -> u64 {
    val()
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_b32(p: *mut u8) {
    let b = bytes(32);
    unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), p, 32) }
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_fill(p: *mut u8, n: u64) {
    let b = bytes(n as usize);
    unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), p, n as usize) }
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: u64) {
    if c & 1 == 0 {
        RT.with(|r| r.borrow_mut().assumed_false += 1);
        std::panic::panic_any(StopToken)
    }
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_assert(c: u64, tag: u64) {
    if c & 1 == 0 {
        RT.with(|r| r.borrow_mut().failed.push(tag));
    }
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_reach(id: u64) {
    RT.with(|r| r.borrow_mut().reach |= 1 << id.min(63));
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_observe(tag: u64, v: u64) {
    RT.with(|r| r.borrow_mut().obs.push((tag, v)));
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_hash(p: *const u8, n: u64, out: *mut u8) {
    use sha2::Digest;
    let s = unsafe { core::slice::from_raw_parts(p, n as usize) };
    let h: [u8; 32] = RT.with(|r| match r.borrow().hashes.get(s) {
        Some(h) => *h,
        None => sha2::Sha256::digest(s).into(),
    });
    unsafe { core::ptr::copy_nonoverlapping(h.as_ptr(), out, 32) }
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_concretize(v: u64) -> u64 {
    v
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_expect_panic(v: u64) {
    RT.with(|r| r.borrow_mut().expect_panic = v != 0);
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_note(tag: u64, v: u64) {
    if std::env::var("SYM_NOTE").is_ok() {
        eprintln!("note {tag} = {v}");
    }
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_eq(a: *const u8, b: *const u8, n: u64) -> u64 {
    let (x, y) = unsafe { (core::slice::from_raw_parts(a, n as usize), core::slice::from_raw_parts(b, n as usize)) };
    (x == y) as u64
}
#[inline(never)]
#[no_mangle]
pub extern "C-unwind" fn sym_stop() {
    std::panic::panic_any(StopToken)
}
