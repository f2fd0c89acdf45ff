//! libc entry points replaced so that runs are deterministic: randomness and the clock.
use std::cell::UnsafeCell;

pub struct Cell0<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for Cell0<T> {}
impl<T> Cell0<T> {
    pub const fn new(t: T) -> Self {
        Cell0(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

/// virtual clock, nanoseconds; starts at an arbitrary fixed date
pub const T0: u64 = 1_700_000_000_000_000_000;
static NOW: Cell0<u64> = Cell0::new(T0);
pub fn now_ns() -> u64 {
    if let Some((s, n)) = *RAW.get() {
        return s * 1_000_000_000 + n;
    }
    *NOW.get()
}
pub fn set_now_ns(v: u64) {
    *NOW.get() = v;
}
pub fn advance(ns: u64) {
    *NOW.get() += ns;
}

/// when set: (seconds, nanoseconds) reported as they are, so that symbolic times need no division
static RAW: Cell0<Option<(u64, u64)>> = Cell0::new(None);
pub fn set_raw(s: u64, ns: u64) {
    *RAW.get() = Some((s, ns));
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut [i64; 2]) -> i32 {
    if let Some((s, n)) = *RAW.get() {
        (*ts)[0] = s as i64;
        (*ts)[1] = n as i64;
        return 0;
    }
    let n = now_ns();
    (*ts)[0] = (n / 1_000_000_000) as i64;
    (*ts)[1] = (n % 1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(n: i32, buf: *mut u8, len: usize) -> i32 {
    let s = [b'e', b'r', b'r', b'n', b'o', b' ', b'0' + (n / 100 % 10) as u8, b'0' + (n / 10 % 10) as u8, b'0' + (n % 10) as u8, 0];
    if len < s.len() {
        return 34;
    }
    for (i, c) in s.iter().enumerate() {
        *buf.add(i) = *c;
    }
    0
}

/// environment variables, as the code under test sees them
static VARS: Cell0<Vec<(String, String)>> = Cell0::new(Vec::new());
pub fn vars() -> &'static mut Vec<(String, String)> {
    VARS.get()
}
