//! Child processes: a spawned command is a future supplied by the rig, which runs as a task, has
//! the ends of its pipes, and can be killed.
use crate::pipe::*;
use crate::rt::*;
use nd::env::Cell0;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::future::Future;
use std::io;
use std::os::unix::process::ExitStatusExt;
use std::pin::Pin;
use std::process::ExitStatus;
use std::task::{Poll, Waker};

pub type ChildStdout = PipeRead;
pub type ChildStderr = PipeRead;
pub type ChildStdin = PipeWrite;

pub struct Request {
    pub pid: u32,
    pub program: OsString,
    pub args: Vec<OsString>,
    pub env: Vec<(OsString, OsString)>,
    pub stdout: Option<PipeWrite>,
    pub stderr: Option<PipeWrite>,
    pub read_fds: BTreeMap<i32, PipeRead>,
    pub write_fds: BTreeMap<i32, PipeWrite>,
    pub kill_on_drop: bool,
    pub stdin: Stdio,
    pub out: Stdio,
    pub err: Stdio,
}
/// what a program does: returns its raw wait status
pub type Body = Pin<Box<dyn Future<Output = i32>>>;
type Spawner = Box<dyn FnMut(Request) -> io::Result<Body>>;
static SPAWNER: Cell0<Option<Spawner>> = Cell0::new(None);
pub fn set_spawner(f: impl FnMut(Request) -> io::Result<Body> + 'static) {
    *SPAWNER.get() = Some(Box::new(f));
}
#[derive(Default)]
pub struct Proc {
    pub task: usize,
    pub status: Option<i32>,
    pub reaped: bool,
    pub wakers: Vec<Waker>,
    /// signals received, in order
    pub signals: Vec<(i32, u64)>,
    pub ignores_term: bool,
    /// the process that started it, when that was not the program under test
    pub parent: Option<u32>,
}
pub const PID0: u32 = 5000;
static PROCS: Cell0<Vec<Proc>> = Cell0::new(Vec::new());
pub fn procs() -> &'static mut Vec<Proc> {
    PROCS.get()
}
pub fn proc_of(pid: i32) -> Option<&'static mut Proc> {
    let i = pid as i64 - PID0 as i64;
    if i < 0 {
        return None;
    }
    PROCS.get().get_mut(i as usize)
}
fn exit(pid: u32, st: i32) {
    let p = proc_of(pid as i32).unwrap();
    if p.status.is_none() {
        p.status = Some(st);
        let t = p.task;
        for w in std::mem::take(&mut p.wakers) {
            w.wake()
        }
        if rt().current != Some(t) {
            kill_task(t);
        }
    }
}
/// kill(2)
pub fn kill(pid: i32, sig: i32) -> bool {
    let Some(p) = proc_of(pid) else { return false };
    if p.reaped {
        // the pid may belong to someone else by now
        nd::fail("a signal was sent to the pid of a process that was already reaped");
        return false;
    }
    p.signals.push((sig, nd::env::now_ns()));
    if p.status.is_none() && (sig == 9 || ((sig == 15 || sig == 2) && !p.ignores_term)) {
        exit(pid as u32, sig);
    }
    true
}
/// waitpid(2), for any child, without waiting
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: i32, status: *mut i32, _options: i32) -> i32 {
    let mut any = false;
    for i in 0..procs().len() {
        let n = PID0 as i32 + i as i32;
        if (pid > 0 && pid != n) || !is_ours(i) {
            continue;
        }
        let p = &mut procs()[i];
        if p.reaped {
            continue;
        }
        any = true;
        if let Some(s) = p.status {
            p.reaped = true;
            if !status.is_null() {
                *status = s;
            }
            return n;
        }
    }
    if any {
        return 0;
    }
    nd::fs::errno(10);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn prctl(op: i32, a: u64, _b: u64, _c: u64, _d: u64) -> i32 {
    if op == 36 {
        *SUBREAPER.get() = a != 0;
    }
    0
}
static SUBREAPER: Cell0<bool> = Cell0::new(false);
/// whether the process is a child of the program under test (orphans are, once it is their reaper)
pub fn is_ours(i: usize) -> bool {
    match procs()[i].parent {
        None => true,
        Some(p) => *SUBREAPER.get() && proc_of(p as i32).map_or(false, |p| p.status.is_some()),
    }
}
/// a process starts another one
pub fn fork(parent: u32, body: Body) -> u32 {
    let pid = PID0 + procs().len() as u32;
    procs().push(Proc { parent: Some(parent), ..Proc::default() });
    let t = add_task(
        "grandchild",
        Box::pin(async move {
            let st = body.await;
            exit(pid, st);
        }),
    );
    procs()[(pid - PID0) as usize].task = t;
    pid
}
pub struct Command {
    program: OsString,
    args: Vec<OsString>,
    env: Vec<(OsString, OsString)>,
    stdin: Stdio,
    stdout: Stdio,
    stderr: Stdio,
    kill_on_drop: bool,
    /// parent fd, child fd
    pub fds: Vec<(i32, i32)>,
}
/// what std::process::Stdio says (vstd re-exports it), so that it can be looked into
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Stdio {
    Null,
    Piped,
    Inherit,
    Other,
}
impl Stdio {
    pub fn null() -> Self {
        Stdio::Null
    }
    pub fn piped() -> Self {
        Stdio::Piped
    }
    pub fn inherit() -> Self {
        Stdio::Inherit
    }
}
impl From<std::fs::File> for Stdio {
    fn from(_: std::fs::File) -> Self {
        Stdio::Other
    }
}
impl Command {
    pub fn new<S: AsRef<OsStr>>(p: S) -> Command {
        Command {
            program: p.as_ref().into(),
            args: vec![],
            env: vec![],
            stdin: Stdio::Inherit,
            stdout: Stdio::Inherit,
            stderr: Stdio::Inherit,
            kill_on_drop: false,
            fds: vec![],
        }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Self {
        self.args.push(a.as_ref().into());
        self
    }
    pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, a: I) -> &mut Self {
        for x in a {
            self.arg(x);
        }
        self
    }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Self {
        self.env.push((k.as_ref().into(), v.as_ref().into()));
        self
    }
    pub fn kill_on_drop(&mut self, k: bool) -> &mut Self {
        self.kill_on_drop = k;
        self
    }
    pub fn stdin<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stdin = s.into();
        self
    }
    pub fn stdout<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stdout = s.into();
        self
    }
    pub fn stderr<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stderr = s.into();
        self
    }
    pub fn spawn(&mut self) -> io::Result<Child> {
        nd::fs::set_kill(kill);
        let pid = PID0 + procs().len() as u32;
        let mut rq = Request {
            pid,
            program: self.program.clone(),
            args: self.args.clone(),
            env: self.env.clone(),
            stdout: None,
            stderr: None,
            read_fds: BTreeMap::new(),
            write_fds: BTreeMap::new(),
            kill_on_drop: self.kill_on_drop,
            stdin: self.stdin,
            out: self.stdout,
            err: self.stderr,
        };
        let mut ch = Child { pid, kill_on_drop: self.kill_on_drop, done: None, stdin: None, stdout: None, stderr: None };
        if self.stdout == Stdio::Piped {
            let (r, w) = pipe();
            ch.stdout = Some(r);
            rq.stdout = Some(w);
        }
        if self.stderr == Stdio::Piped {
            let (r, w) = pipe();
            ch.stderr = Some(r);
            rq.stderr = Some(w);
        }
        for &(pfd, cfd) in &self.fds {
            match of_fd(pfd) {
                Some((i, true)) => drop(rq.write_fds.insert(cfd, dup_write(i))),
                Some((i, false)) => drop(rq.read_fds.insert(cfd, dup_read(i))),
                None => return Err(io::Error::from_raw_os_error(9)),
            }
        }
        let sp = SPAWNER.get().as_mut().expect("no spawner set");
        procs().push(Proc::default());
        let body = match sp(rq) {
            Ok(b) => b,
            Err(e) => {
                procs().pop();
                ch.kill_on_drop = false;
                return Err(e);
            }
        };
        let t = add_task(
            "child",
            Box::pin(async move {
                let st = body.await;
                exit(pid, st);
            }),
        );
        procs()[(pid - PID0) as usize].task = t;
        Ok(ch)
    }
}

#[derive(Debug)]
pub struct Child {
    pid: u32,
    kill_on_drop: bool,
    done: Option<i32>,
    pub stdin: Option<ChildStdin>,
    pub stdout: Option<ChildStdout>,
    pub stderr: Option<ChildStderr>,
}
impl Child {
    pub fn id(&self) -> Option<u32> {
        self.done.is_none().then_some(self.pid)
    }
    pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
        let p = proc_of(self.pid as i32).unwrap();
        if let Some(s) = p.status {
            p.reaped = true;
            self.done = Some(s);
            return Ok(Some(ExitStatus::from_raw(s)));
        }
        Ok(None)
    }
    pub async fn wait(&mut self) -> io::Result<ExitStatus> {
        drop(self.stdin.take());
        std::future::poll_fn(|cx| {
            if let Some(s) = self.done {
                return Poll::Ready(Ok(ExitStatus::from_raw(s)));
            }
            let p = proc_of(self.pid as i32).unwrap();
            match p.status {
                Some(s) => {
                    p.reaped = true;
                    self.done = Some(s);
                    Poll::Ready(Ok(ExitStatus::from_raw(s)))
                }
                None => {
                    p.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
    pub fn start_kill(&mut self) -> io::Result<()> {
        kill(self.pid as i32, 9);
        Ok(())
    }
    pub async fn kill(&mut self) -> io::Result<()> {
        self.start_kill()?;
        self.wait().await?;
        Ok(())
    }
}
impl Drop for Child {
    fn drop(&mut self) {
        if self.done.is_none() && self.kill_on_drop {
            kill(self.pid as i32, 9);
        }
    }
}
