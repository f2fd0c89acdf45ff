//! The executor: a FIFO run queue from which a bounded number of out-of-order picks is allowed
//! (delay-bounded scheduling); when nothing can run, virtual time jumps to the next timer.
use nd::env::Cell0;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

pub struct Flag {
    pub id: usize,
    pub queued: AtomicBool,
    pub dead: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.dead.load(Ordering::Relaxed) || self.queued.swap(true, Ordering::Relaxed) {
            return;
        }
        rt().queue.push_back(self.id);
    }
}
pub struct Task {
    pub fut: Option<BoxFut>,
    pub flag: Arc<Flag>,
    pub name: &'static str,
}
pub struct Timer {
    pub deadline: u64,
    pub seq: u64,
    pub waker: Waker,
}
#[derive(Default)]
pub struct Rt {
    pub tasks: Vec<Task>,
    pub queue: VecDeque<usize>,
    pub timers: Vec<Timer>,
    pub seq: u64,
    /// how many out-of-order picks remain
    pub delays: u32,
    /// how many times a select! may start at another branch
    pub selects: u32,
    /// how many preemptions at sched::point() remain
    pub preempt: u32,
    /// locks held (points are disabled)
    pub nopoint: u32,
    /// polls made
    pub polls: u64,
    pub current: Option<usize>,
    pub idle_hook: Option<Box<dyn FnMut() -> bool>>,
    pub max_polls: u64,
}
static RT: Cell0<Option<Rt>> = Cell0::new(None);
pub fn rt() -> &'static mut Rt {
    RT.get().get_or_insert_with(|| Rt { max_polls: u64::MAX, ..Default::default() })
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Stuck {
    /// nothing is ready and no timer is pending
    Deadlock,
    /// poll bound exceeded
    Polls,
}

pub fn add_task(name: &'static str, fut: BoxFut) -> usize {
    let r = rt();
    let id = r.tasks.len();
    let flag = Arc::new(Flag { id, queued: AtomicBool::new(true), dead: AtomicBool::new(false) });
    r.tasks.push(Task { fut: Some(fut), flag, name });
    r.queue.push_back(id);
    id
}

pub fn kill_task(id: usize) {
    let r = rt();
    r.tasks[id].flag.dead.store(true, Ordering::Relaxed);
    let f = r.tasks[id].fut.take();
    r.queue.retain(|&x| x != id);
    drop(f);
}

pub fn poll_task(id: usize) {
    let r = rt();
    let t = &mut r.tasks[id];
    t.flag.queued.store(false, Ordering::Relaxed);
    let Some(mut f) = t.fut.take() else { return };
    let waker = Waker::from(t.flag.clone());
    let prev = r.current.replace(id);
    r.polls += 1;
    let p = f.as_mut().poll(&mut Context::from_waker(&waker));
    let r = rt();
    r.current = prev;
    if p.is_pending() && !r.tasks[id].flag.dead.load(Ordering::Relaxed) {
        r.tasks[id].fut = Some(f);
    } else {
        r.tasks[id].flag.dead.store(true, Ordering::Relaxed);
        drop(f);
    }
}

/// fire every timer due at the earliest deadline; false if there is none
fn advance() -> bool {
    let r = rt();
    let Some(min) = r.timers.iter().map(|t| t.deadline).min() else { return false };
    if min > nd::env::now_ns() {
        nd::env::set_now_ns(min);
    }
    fire();
    true
}
/// fire all timers whose deadline has passed
pub fn fire() {
    let r = rt();
    let now = nd::env::now_ns();
    let mut i = 0;
    let mut due = vec![];
    while i < r.timers.len() {
        if r.timers[i].deadline <= now {
            due.push(r.timers.remove(i));
        } else {
            i += 1;
        }
    }
    due.sort_by_key(|t| (t.deadline, t.seq));
    for t in due {
        t.waker.wake();
    }
}

/// pick the next ready task (None when idle)
fn pick() -> Option<usize> {
    let r = rt();
    let n = r.queue.len();
    if n == 0 {
        return None;
    }
    let k = n.min(r.delays as usize + 1);
    let i = if k > 1 { nd::choose(k, "sched") } else { 0 };
    r.delays -= i as u32;
    r.queue.remove(i)
}

/// run until `done` says so
pub fn run_until(mut done: impl FnMut() -> bool) -> Result<(), Stuck> {
    loop {
        if done() {
            return Ok(());
        }
        if rt().polls > rt().max_polls {
            return Err(Stuck::Polls);
        }
        match pick() {
            Some(id) => poll_task(id),
            None => {
                let mut h = rt().idle_hook.take();
                let went_on = h.as_mut().map(|h| h()).unwrap_or(false);
                rt().idle_hook = h;
                if went_on {
                    continue;
                }
                if !advance() {
                    return Err(Stuck::Deadlock);
                }
            }
        }
    }
}

/// run everything that can run without letting time pass
pub fn run_ready() {
    while let Some(id) = pick() {
        poll_task(id)
    }
}

/// the calling thread sleeps until `t`: only processes go on
pub fn sleep_thread(t: u64) {
    loop {
        let r = rt();
        let p = r.queue.iter().position(|&i| matches!(r.tasks[i].name, "child" | "grandchild"));
        if let Some(p) = p {
            let id = r.queue.remove(p).unwrap();
            poll_task(id);
            continue;
        }
        match r.timers.iter().map(|t| t.deadline).min() {
            Some(m) if m <= t => {
                advance();
            }
            _ => break,
        }
    }
    if nd::env::now_ns() < t {
        nd::env::set_now_ns(t);
    }
}

/// let virtual time pass up to `t`, running what becomes ready
pub fn run_to(t: u64) {
    loop {
        run_ready();
        match rt().timers.iter().map(|t| t.deadline).min() {
            Some(m) if m <= t => {
                advance();
            }
            _ => break,
        }
    }
    if nd::env::now_ns() < t {
        nd::env::set_now_ns(t);
    }
}

pub fn try_block_on<F: Future>(f: F) -> Result<F::Output, Stuck> {
    // the future borrows from the caller's frame; it is dropped (killed) before returning
    let mut out: Option<F::Output> = None;
    let o: *mut Option<F::Output> = &mut out;
    let fut = async move {
        let v = f.await;
        unsafe { *o = Some(v) };
    };
    let b: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(fut);
    let b: BoxFut = unsafe { std::mem::transmute(b) };
    let id = add_task("main", b);
    let r = run_until(|| rt().tasks[id].flag.dead.load(Ordering::Relaxed));
    kill_task(id);
    r?;
    Ok(out.unwrap())
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    match try_block_on(f) {
        Ok(v) => v,
        Err(e) => panic!("the runtime is stuck: {e:?}"),
    }
}

/// poll a future once, outside of any task, with a waker that counts its wakeups
pub struct Manual {
    pub woken: Arc<CountWake>,
}
pub struct CountWake(pub std::sync::atomic::AtomicUsize);
impl Wake for CountWake {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}
impl Manual {
    pub fn new() -> Self {
        Manual { woken: Arc::new(CountWake(Default::default())) }
    }
    pub fn poll<F: Future + ?Sized>(&self, f: Pin<&mut F>) -> Poll<F::Output> {
        let w = Waker::from(self.woken.clone());
        f.poll(&mut Context::from_waker(&w))
    }
    pub fn count(&self) -> usize {
        self.woken.0.load(Ordering::Relaxed)
    }
}
impl Default for Manual {
    fn default() -> Self {
        Self::new()
    }
}
