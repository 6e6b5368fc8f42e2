//! Interface to the symbolic executor (or to the native replayer).
#![allow(dead_code)]

mod ext {
    extern "C-unwind" {
        pub fn sx_var(bits: u32, lo: u64, hi: u64) -> u64;
        pub fn sx_pick(n: u32) -> u32;
        pub fn sx_assume(b: bool);
        pub fn sx_check(b: bool, id: *const u8, len: usize);
        pub fn sx_cover(k: u32);
        pub fn sx_obs(v: u64);
        pub fn sx_is_sym(v: u64) -> bool;
        pub fn sx_param(i: u64) -> u64;
        pub fn sx_or(a: bool, b: bool) -> bool;
        pub fn sx_and(a: bool, b: bool) -> bool;
    }
}

/// A symbolic number in `lo..=hi`.
pub fn var(lo: u64, hi: u64) -> u64 {
    let bits = (64 - hi.leading_zeros()).max(1);
    let bits = if bits <= 8 { 8 } else if bits <= 16 { 16 } else if bits <= 32 { 32 } else { 64 };
    unsafe { ext::sx_var(bits, lo, hi) }
}
/// Any 64-bit number.
pub fn var64() -> u64 {
    unsafe { ext::sx_var(64, 0, u64::MAX) }
}
/// A symbolic boolean.
pub fn boolean() -> bool {
    var(0, 1) != 0
}
/// A structural choice in `0..n`; every value is explored.
pub fn pick(n: usize) -> usize {
    unsafe { ext::sx_pick(n as u32) as usize }
}
/// Discard the inputs for which `b` is false.
pub fn assume(b: bool) {
    unsafe { ext::sx_assume(b) }
}
/// The property: `b` must hold for all inputs.
pub fn check(b: bool, id: &'static str) {
    unsafe { ext::sx_check(b, id.as_ptr(), id.len()) }
}
/// Reachability witness.
pub fn cover(k: u32) {
    unsafe { ext::sx_cover(k) }
}
/// Observation compared between symbolic and native executions.
pub fn obs(v: u64) {
    unsafe { ext::sx_obs(v) }
}
pub fn is_sym(v: u64) -> bool {
    unsafe { ext::sx_is_sym(v) }
}
pub fn param(i: u64) -> u64 {
    unsafe { ext::sx_param(i) }
}
/// Disjunction/conjunction without forking.
pub fn or(a: bool, b: bool) -> bool {
    unsafe { ext::sx_or(a, b) }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { ext::sx_and(a, b) }
}

/// A string of `len` copies of `ch` (ASCII), where `len <= max` may be symbolic.
pub fn sym_string(ch: u8, len: u64, max: u64) -> String {
    let n = if is_sym(len) { max } else { len };
    let mut v: Vec<u8> = Vec::with_capacity(n as usize + 1);
    unsafe {
        core::ptr::write_bytes(v.as_mut_ptr(), ch, n as usize);
        v.set_len(len as usize);
        String::from_utf8_unchecked(v)
    }
}

/// Describe the case, when a counterexample is replayed natively.
#[cfg(feature = "native")]
pub fn show(f: impl FnOnce() -> String) {
    if std::env::var_os("SX_SHOW").is_some() {
        println!("{}", f());
    }
}
#[cfg(not(feature = "native"))]
#[inline(always)]
pub fn show(_f: impl FnOnce() -> String) {}
