//! In-memory pipes (used for child stdio and, through the tokio_pipe stand-in, for fd3/fd4).
use rtokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use nd::env::Cell0;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub struct P {
    pub buf: VecDeque<u8>,
    pub readers: u32,
    pub writers: u32,
    pub cap: usize,
    /// O_NONBLOCK of the reading and the writing end (shared by all handles on it)
    pub nonblock: [bool; 2],
    wakers: Vec<Waker>,
}
static PIPES: Cell0<Vec<P>> = Cell0::new(Vec::new());
pub static CAPACITY: Cell0<usize> = Cell0::new(65536);
pub fn get(i: usize) -> &'static mut P {
    &mut PIPES.get()[i]
}
fn wake(i: usize) {
    for w in std::mem::take(&mut get(i).wakers) {
        w.wake()
    }
}
const FD0: i32 = 2_000_000;
/// pipe index and whether it is the write end
pub fn of_fd(fd: i32) -> Option<(usize, bool)> {
    let n = fd - FD0;
    (n >= 0 && (n as usize) < 2 * PIPES.get().len()).then(|| (n as usize / 2, n % 2 == 1))
}
#[derive(Debug)]
pub struct PipeRead(pub usize, bool);
#[derive(Debug)]
pub struct PipeWrite(pub usize, bool);
pub fn pipe() -> (PipeRead, PipeWrite) {
    PIPES.get().push(P { buf: VecDeque::new(), readers: 1, writers: 1, cap: *CAPACITY.get(), nonblock: [false; 2], wakers: vec![] });
    let i = PIPES.get().len() - 1;
    (PipeRead(i, false), PipeWrite(i, false))
}
/// as tokio_pipe makes them: both ends in non-blocking mode
pub fn nonblocking_pipe() -> (PipeRead, PipeWrite) {
    let (r, w) = pipe();
    get(r.0).nonblock = [true; 2];
    (r, w)
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    let Some((i, w)) = of_fd(fd) else {
        return if nd::symbolic() { 0 } else { syscall(72, fd as i64, cmd as i64, arg) as i32 };
    };
    let flag = &mut get(i).nonblock[w as usize];
    match cmd {
        3 => w as i32 | (*flag as i32) << 11,
        4 => {
            *flag = arg & 0o4000 != 0;
            0
        }
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, rq: u64, arg: usize) -> i32 {
    let Some((i, w)) = of_fd(fd) else {
        return if nd::symbolic() { 0 } else { syscall(16, fd as i64, rq, arg) as i32 };
    };
    // FIONBIO
    if rq == 0x5421 {
        get(i).nonblock[w as usize] = *(arg as *const i32) != 0;
    }
    0
}
/// another handle on an end (what a child inherits)
pub fn dup_read(i: usize) -> PipeRead {
    get(i).readers += 1;
    PipeRead(i, true)
}
pub fn dup_write(i: usize) -> PipeWrite {
    get(i).writers += 1;
    PipeWrite(i, true)
}
impl Drop for PipeRead {
    fn drop(&mut self) {
        get(self.0).readers -= 1;
        wake(self.0);
    }
}
impl Drop for PipeWrite {
    fn drop(&mut self) {
        get(self.0).writers -= 1;
        wake(self.0);
    }
}
impl std::os::unix::io::AsRawFd for PipeRead {
    fn as_raw_fd(&self) -> i32 {
        FD0 + 2 * self.0 as i32
    }
}
impl std::os::unix::io::AsRawFd for PipeWrite {
    fn as_raw_fd(&self) -> i32 {
        FD0 + 2 * self.0 as i32 + 1
    }
}
impl AsyncRead for PipeRead {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let p = get(self.0);
        if p.buf.is_empty() {
            if p.writers == 0 || b.remaining() == 0 {
                return Poll::Ready(Ok(()));
            }
            if self.1 && p.nonblock[0] {
                // a child does not expect that
                return Poll::Ready(Err(io::Error::from_raw_os_error(11)));
            }
            p.wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        let n = p.buf.len().min(b.remaining());
        for x in p.buf.drain(..n) {
            b.put_slice(&[x]);
        }
        wake(self.0);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for PipeWrite {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let p = get(self.0);
        if p.readers == 0 {
            return Poll::Ready(Err(io::Error::from_raw_os_error(32)));
        }
        let room = p.cap - p.buf.len();
        if room == 0 && !b.is_empty() {
            if self.1 && p.nonblock[1] {
                return Poll::Ready(Err(io::Error::from_raw_os_error(11)));
            }
            p.wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        let n = room.min(b.len());
        p.buf.extend(&b[..n]);
        wake(self.0);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
