//! Nondeterminism interface between harnesses and the symbolic interpreter, plus the
//! deterministic replacements for clock and randomness.
extern "C" {
    fn __nd_sym(bits: u32, n: *const u8, l: u64) -> u64;
    fn __nd_choose(k: u32, n: *const u8, l: u64) -> u32;
    fn __nd_assume(b: bool);
    fn __nd_check(b: bool, n: *const u8, l: u64);
    fn __nd_fail(n: *const u8, l: u64);
    fn __nd_cover(n: *const u8, l: u64);
    fn __nd_log(t: u64, v: u64);
    fn __nd_dbg(n: *const u8, l: u64, v: u64);
    fn __nd_mode() -> u32;
    fn __nd_conc(v: u64) -> u64;
    fn __nd_ite(c: bool, a: u64, b: u64) -> u64;
}

pub fn u64(n: &str) -> u64 {
    unsafe { __nd_sym(64, n.as_ptr(), n.len() as u64) }
}
pub fn u32(n: &str) -> u32 {
    unsafe { __nd_sym(32, n.as_ptr(), n.len() as u64) as u32 }
}
pub fn i32(n: &str) -> i32 {
    u32(n) as i32
}
pub fn u16(n: &str) -> u16 {
    unsafe { __nd_sym(16, n.as_ptr(), n.len() as u64) as u16 }
}
pub fn u8(n: &str) -> u8 {
    unsafe { __nd_sym(8, n.as_ptr(), n.len() as u64) as u8 }
}
pub fn bool(n: &str) -> bool {
    unsafe { __nd_sym(1, n.as_ptr(), n.len() as u64) & 1 == 1 }
}
/// a value below k; the run forks over them
pub fn choose(k: usize, n: &str) -> usize {
    if k < 2 {
        return 0;
    }
    unsafe { __nd_conc(__nd_choose(k as u32, n.as_ptr(), n.len() as u64) as u64) as usize }
}
/// a value below `hi` of full width
pub fn below(hi: u64, n: &str) -> u64 {
    let v = u64(n);
    assume(v < hi);
    v
}
pub fn assume(b: bool) {
    unsafe { __nd_assume(b) }
}
pub fn check(b: bool, n: &str) {
    unsafe { __nd_check(b, n.as_ptr(), n.len() as u64) }
}
pub fn fail(n: &str) {
    unsafe { __nd_fail(n.as_ptr(), n.len() as u64) }
}
pub fn cover(n: &str) {
    unsafe { __nd_cover(n.as_ptr(), n.len() as u64) }
}
/// part of the trace compared between the symbolic run and the native replay
pub fn log(t: u64, v: u64) {
    unsafe { __nd_log(t, v) }
}
pub fn dbg(n: &str, v: u64) {
    unsafe { __nd_dbg(n.as_ptr(), n.len() as u64, v) }
}
pub fn symbolic() -> bool {
    unsafe { __nd_mode() == 1 }
}
/// force a concrete value (forks over all feasible values)
pub fn conc(v: u64) -> u64 {
    unsafe { __nd_conc(v) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { __nd_ite(c, a, b) }
}

pub mod env;
pub mod fs;
