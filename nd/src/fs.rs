//! An in-memory file system below /ndfs/, plus fixed answers for the identity of user and host.
//! Descriptors from FD0 on belong to it; everything else goes to the kernel when running natively
//! and is swallowed (stdout, stderr) or refused in the symbolic interpreter.
use crate::env::Cell0;

pub const FD0: i32 = 1000;
pub struct Inode {
    pub data: Vec<u8>,
    /// 0 unlocked, >0 the descriptor holding it exclusively
    pub lock: i32,
}
pub struct Fd {
    pub ino: usize,
    pub pos: usize,
    pub append: bool,
}
/// what happened to the files, in order
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Write { ino: usize, pos: usize, len: usize },
    Unlink { ino: usize },
    Lock { ino: usize },
    Unlock { ino: usize },
    Close { ino: usize },
    Sync { ino: usize },
}
pub struct Fs {
    pub dir: Vec<(Vec<u8>, usize)>,
    pub inodes: Vec<Inode>,
    pub fds: Vec<Option<Fd>>,
    pub ops: Vec<Op>,
    /// writes longer than this are short; 0: no limit
    pub short: usize,
    /// the n-th next write fails with ENOSPC
    pub fail_write_in: i64,
}
static FS: Cell0<Fs> = Cell0::new(Fs { dir: vec![], inodes: vec![], fds: vec![], ops: vec![], short: 0, fail_write_in: -1 });
/// called before every operation on a model file (so that a rig can let another process run there)
static HOOK: Cell0<Option<Box<dyn FnMut(&str)>>> = Cell0::new(None);
pub fn set_hook(f: Option<Box<dyn FnMut(&str)>>) {
    *HOOK.get() = f;
}
fn hook(what: &str) {
    if let Some(mut f) = HOOK.get().take() {
        f(what);
        if HOOK.get().is_none() {
            *HOOK.get() = Some(f);
        }
    }
}
pub fn fs() -> &'static mut Fs {
    FS.get()
}
pub fn lookup(p: &str) -> Option<usize> {
    fs().dir.iter().find(|x| x.0 == p.as_bytes()).map(|x| x.1)
}
pub fn put(p: &str, data: &[u8]) -> usize {
    let f = fs();
    f.dir.retain(|x| x.0 != p.as_bytes());
    f.inodes.push(Inode { data: data.to_vec(), lock: 0 });
    let i = f.inodes.len() - 1;
    f.dir.push((p.as_bytes().to_vec(), i));
    i
}
pub fn get(p: &str) -> Option<Vec<u8>> {
    lookup(p).map(|i| fs().inodes[i].data.clone())
}
/// end of process without destructors: descriptors are closed, locks released, buffers lost
pub fn crash() {
    for i in 0..fs().fds.len() {
        do_close(i);
    }
}
fn do_close(i: usize) -> bool {
    let f = fs();
    match f.fds.get_mut(i).and_then(|x| x.take()) {
        None => false,
        Some(d) => {
            f.ops.push(Op::Close { ino: d.ino });
            if f.inodes[d.ino].lock == i as i32 + FD0 {
                f.inodes[d.ino].lock = 0;
            }
            true
        }
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn syscall(n: i64, ...) -> i64;
}
pub fn errno(n: i32) {
    unsafe { *__errno_location() = n };
}
fn e(n: i32) -> i32 {
    unsafe { *__errno_location() = n };
    -1
}
unsafe fn path<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}
fn mine(p: &[u8]) -> bool {
    p.starts_with(b"/ndfs") || p.starts_with(b"/run/user/1000")
}
const O_ACCMODE: i32 = 3;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;

unsafe fn do_open(p: *const u8, flags: i32) -> i32 {
    let p = path(p);
    if !mine(p) {
        return e(2);
    }
    hook("open");
    let f = fs();
    let ino = match f.dir.iter().find(|x| x.0 == p) {
        Some(x) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                return e(17);
            }
            x.1
        }
        None => {
            if flags & O_CREAT == 0 {
                return e(2);
            }
            f.inodes.push(Inode { data: vec![], lock: 0 });
            let i = f.inodes.len() - 1;
            f.dir.push((p.to_vec(), i));
            i
        }
    };
    if flags & O_TRUNC != 0 && flags & O_ACCMODE != 0 {
        f.inodes[ino].data.clear();
    }
    f.fds.push(Some(Fd { ino, pos: 0, append: flags & O_APPEND != 0 }));
    f.fds.len() as i32 - 1 + FD0
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, _mode: u32) -> i32 {
    do_open(p, flags)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, flags: i32, _mode: u32) -> i32 {
    do_open(p, flags)
}
fn fd(n: i32) -> Option<&'static mut Fd> {
    if n < FD0 {
        return None;
    }
    fs().fds.get_mut((n - FD0) as usize).and_then(|x| x.as_mut())
}
#[no_mangle]
pub unsafe extern "C" fn close(n: i32) -> i32 {
    if n < FD0 {
        return if crate::symbolic() { 0 } else { syscall(3, n) as i32 };
    }
    hook("close");
    if do_close((n - FD0) as usize) {
        0
    } else {
        e(9)
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(n: i32, buf: *const u8, len: usize) -> isize {
    if n < FD0 {
        return if crate::symbolic() { len as isize } else { syscall(1, n, buf, len) as isize };
    }
    hook("write");
    let Some(d) = fd(n) else { return e(9) as isize };
    let f = fs();
    if f.fail_write_in >= 0 {
        f.fail_write_in -= 1;
        if f.fail_write_in < 0 {
            return e(28) as isize;
        }
    }
    let len = if f.short > 0 { len.min(f.short) } else { len };
    let data = &mut f.inodes[d.ino].data;
    if d.append {
        d.pos = data.len();
    }
    if data.len() < d.pos + len {
        data.resize(d.pos + len, 0);
    }
    data[d.pos..d.pos + len].copy_from_slice(std::slice::from_raw_parts(buf, len));
    f.ops.push(Op::Write { ino: d.ino, pos: d.pos, len });
    d.pos += len;
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(n: i32, iov: *const [usize; 2], cnt: i32) -> isize {
    let mut t = 0;
    for i in 0..cnt as usize {
        let v = *iov.add(i);
        let r = write(n, v[0] as *const u8, v[1]);
        if r < 0 {
            return if t > 0 { t } else { r };
        }
        t += r;
        if (r as usize) < v[1] {
            break;
        }
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn read(n: i32, buf: *mut u8, len: usize) -> isize {
    if n < FD0 {
        return if crate::symbolic() { 0 } else { syscall(0, n, buf, len) as isize };
    }
    hook("read");
    let Some(d) = fd(n) else { return e(9) as isize };
    let data = &fs().inodes[d.ino].data;
    let k = len.min(data.len().saturating_sub(d.pos));
    std::ptr::copy_nonoverlapping(data.as_ptr().add(d.pos.min(data.len())), buf, k);
    d.pos += k;
    k as isize
}
unsafe fn seek(n: i32, off: i64, whence: i32) -> i64 {
    let Some(d) = fd(n) else { return e(9) as i64 };
    let base = match whence {
        0 => 0,
        1 => d.pos as i64,
        _ => fs().inodes[d.ino].data.len() as i64,
    };
    if base + off < 0 {
        return e(22) as i64;
    }
    d.pos = (base + off) as usize;
    d.pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(n: i32, off: i64, whence: i32) -> i64 {
    seek(n, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(n: i32, off: i64, whence: i32) -> i64 {
    seek(n, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(n: i32, len: i64) -> i32 {
    match fd(n) {
        None => e(9),
        Some(d) => {
            hook("truncate");
            fs().inodes[d.ino].data.resize(len as usize, 0);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(n: i32) -> i32 {
    match fd(n) {
        None => e(9),
        Some(d) => {
            fs().ops.push(Op::Sync { ino: d.ino });
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(n: i32) -> i32 {
    fsync(n)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    let p = path(p);
    if !mine(p) {
        return e(2);
    }
    hook("unlink");
    let f = fs();
    match f.dir.iter().position(|x| x.0 == p) {
        None => e(2),
        Some(i) => {
            let (_, ino) = f.dir.remove(i);
            f.ops.push(Op::Unlink { ino });
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    let (a, b) = (path(a), path(b));
    if !mine(a) || !mine(b) {
        return e(2);
    }
    hook("rename");
    let f = fs();
    match f.dir.iter().position(|x| x.0 == a) {
        None => e(2),
        Some(i) => {
            let (_, ino) = f.dir.remove(i);
            f.dir.retain(|x| x.0 != b);
            f.dir.push((b.to_vec(), ino));
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, _m: u32) -> i32 {
    if mine(path(p)) {
        0
    } else {
        e(13)
    }
}
/// locks of different descriptors exclude each other, also within one process
#[no_mangle]
pub unsafe extern "C" fn flock(n: i32, op: i32) -> i32 {
    hook("flock");
    let Some(d) = fd(n) else { return e(9) };
    let f = fs();
    let ino = d.ino;
    let l = &mut f.inodes[ino].lock;
    if op & 8 != 0 {
        if *l == n {
            *l = 0;
        }
        f.ops.push(Op::Unlock { ino });
        return 0;
    }
    if *l != 0 && *l != n {
        if op & 4 == 0 {
            crate::fail("deadlock: waits for a file lock");
        }
        return e(11);
    }
    *l = n;
    f.ops.push(Op::Lock { ino });
    0
}
unsafe fn fill_stat(st: *mut u8, ino: usize) {
    std::ptr::write_bytes(st, 0, 144);
    *(st.add(8) as *mut u64) = ino as u64 + 1;
    *(st.add(16) as *mut u64) = 1;
    *(st.add(24) as *mut u32) = 0o100644;
    *(st.add(48) as *mut u64) = fs().inodes[ino].data.len() as u64;
    *(st.add(56) as *mut u64) = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(n: i32, st: *mut u8) -> i32 {
    match fd(n) {
        None => e(9),
        Some(d) => {
            fill_stat(st, d.ino);
            0
        }
    }
}
unsafe fn stat_path(p: *const u8, st: *mut u8) -> i32 {
    let p = path(p);
    match fs().dir.iter().find(|x| x.0 == p) {
        None => e(2),
        Some(x) => {
            fill_stat(st, x.1);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const u8, st: *mut u8) -> i32 {
    stat_path(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const u8, st: *mut u8) -> i32 {
    stat_path(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(n: i32, p: *const u8, _flags: i32, _mask: u32, st: *mut u8) -> i32 {
    if st.is_null() || p.is_null() {
        return e(14);
    }
    let name = path(p);
    let ino = if name.is_empty() {
        match fd(n) {
            None => return e(9),
            Some(d) => d.ino,
        }
    } else {
        match fs().dir.iter().find(|x| x.0 == name) {
            None => return e(2),
            Some(x) => x.1,
        }
    };
    std::ptr::write_bytes(st, 0, 256);
    *(st as *mut u32) = 0x7ff;
    *(st.add(4) as *mut u32) = 4096;
    *(st.add(16) as *mut u32) = 1;
    *(st.add(28) as *mut u16) = 0o100644;
    *(st.add(32) as *mut u64) = ino as u64 + 1;
    *(st.add(40) as *mut u64) = fs().inodes[ino].data.len() as u64;
    0
}
extern "C" {
    fn malloc(n: usize) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const u8, out: *mut u8) -> *mut u8 {
    let n = path(p);
    if !mine(n) || (n.len() > 6 && !fs().dir.iter().any(|x| x.0 == n)) {
        e(2);
        return std::ptr::null_mut();
    }
    let o = if out.is_null() { malloc(n.len() + 1) } else { out };
    std::ptr::copy_nonoverlapping(p, o, n.len() + 1);
    o
}
unsafe fn text(buf: *mut u8, len: usize, s: &[u8]) -> bool {
    if len < s.len() + 1 {
        return false;
    }
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len());
    *buf.add(s.len()) = 0;
    true
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, len: usize) -> *mut u8 {
    if text(buf, len, b"/ndfs") {
        buf
    } else {
        e(34);
        std::ptr::null_mut()
    }
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut u8, len: usize) -> i32 {
    if text(buf, len, b"host") {
        0
    } else {
        e(36)
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    4242
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
    1000
}
#[no_mangle]
pub unsafe extern "C" fn geteuid() -> u32 {
    1000
}
static NAME: &[u8] = b"user\0";
/// struct passwd: name, passwd, uid, gid, gecos, dir, shell
#[no_mangle]
pub unsafe extern "C" fn getpwuid_r(_u: u32, pw: *mut u8, _buf: *mut u8, _n: usize, res: *mut *mut u8) -> i32 {
    std::ptr::write_bytes(pw, 0, 48);
    for off in [0usize, 8, 24, 32, 40] {
        *(pw.add(off) as *mut *const u8) = NAME.as_ptr();
    }
    *res = pw;
    0
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_n: i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpgrp() -> i32 {
    4242
}
#[no_mangle]
pub unsafe extern "C" fn setpgid(_a: i32, _b: i32) -> i32 {
    0
}
/// signals sent through libc: (target, signal); a process group has target -pgid
static SENT: Cell0<Vec<(i32, i32)>> = Cell0::new(vec![]);
pub fn sent() -> &'static mut Vec<(i32, i32)> {
    SENT.get()
}
static KILL: Cell0<Option<fn(i32, i32) -> bool>> = Cell0::new(None);
pub fn set_kill(f: fn(i32, i32) -> bool) {
    *KILL.get() = Some(f);
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: i32, sig: i32) -> i32 {
    SENT.get().push((pid, sig));
    match *KILL.get() {
        Some(f) if !f(pid, sig) => e(3),
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn killpg(pg: i32, sig: i32) -> i32 {
    SENT.get().push((-pg, sig));
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: i32) -> i64 {
    match n {
        30 => 4096, // _SC_PAGESIZE
        84 | 83 => 8,
        180 => 64, // _SC_HOST_NAME_MAX
        _ => 1024,
    }
}

/// folders cannot be listed
#[no_mangle]
pub unsafe extern "C" fn opendir(_p: *const u8) -> *mut u8 {
    e(13);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn tzset() {}
/// local time is UTC (struct tm: sec min hour mday mon year wday yday isdst, gmtoff, zone)
#[no_mangle]
pub unsafe extern "C" fn localtime_r(t: *const i64, tm: *mut i32) -> *mut i32 {
    let s = *t;
    let (days, sec) = (s.div_euclid(86400), s.rem_euclid(86400));
    // civil from days
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    let v = [sec % 60, sec / 60 % 60, sec / 3600, d, m - 1, y - 1900, (days + 4).rem_euclid(7), 0, 0];
    for (i, x) in v.iter().enumerate() {
        *tm.add(i) = *x as i32;
    }
    *(tm.add(10) as *mut i64) = 0;
    *(tm.add(12) as *mut *const u8) = b"UTC\0".as_ptr();
    tm
}
