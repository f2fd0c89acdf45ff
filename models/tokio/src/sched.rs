//! Places where another thread may run: a bounded number of times, another ready task (or a
//! registered operation) is run to its next suspension point in the middle of the current one.
use crate::rt::*;
use nd::env::Cell0;

pub fn budgets(delays: u32, selects: u32, preempt: u32) {
    let r = rt();
    r.delays = delays;
    r.selects = selects;
    r.preempt = preempt;
}

type Op = Box<dyn FnOnce()>;
static OPS: Cell0<Vec<Option<Op>>> = Cell0::new(Vec::new());

/// an operation another thread performs at some point() from now on (at most once)
pub fn concurrently(f: impl FnOnce() + 'static) -> usize {
    OPS.get().push(Some(Box::new(f)));
    OPS.get().len() - 1
}
pub fn done(i: usize) -> bool {
    OPS.get()[i].is_none()
}
/// run operation i now if it has not run yet
pub fn force(i: usize) {
    if let Some(f) = OPS.get()[i].take() {
        f()
    }
}

/// also preempt after operations that only read, so that code which is not instrumented can follow them
pub fn fine() {
    *FINE.get() = true;
}
static FINE: Cell0<bool> = Cell0::new(false);
pub fn after<T>(r: T) -> T {
    if *FINE.get() {
        point();
    }
    r
}
pub fn point() {
    let r = rt();
    if r.nopoint > 0 || r.preempt == 0 {
        return;
    }
    let q = r.queue.len();
    let ops: Vec<usize> = (0..OPS.get().len()).filter(|&i| OPS.get()[i].is_some()).collect();
    let n = q + ops.len();
    if n == 0 {
        return;
    }
    let i = nd::choose(n + 1, "preempt");
    if i == 0 {
        return;
    }
    let r = rt();
    r.preempt -= 1;
    if i <= q {
        let id = r.queue.remove(i - 1).unwrap();
        poll_task(id);
    } else {
        force(ops[i - 1 - q]);
    }
}

pub struct NoPoint;
impl Drop for NoPoint {
    fn drop(&mut self) {
        rt().nopoint -= 1;
    }
}
pub fn nopoint() -> NoPoint {
    rt().nopoint += 1;
    NoPoint
}

static SELECTS: Cell0<(u64, u32)> = Cell0::new((0, 0));
static FAIR: Cell0<bool> = Cell0::new(false);
pub fn select_start(n: u32) -> u32 {
    let r = rt();
    // the real choice is a random one: a task that does not return to the scheduler is offered every branch
    let (poll, count) = SELECTS.get();
    if *poll != r.polls {
        (*poll, *count) = (r.polls, 0);
    }
    *count += 1;
    *FAIR.get() = *count > 16;
    if *FAIR.get() {
        return *count % n;
    }
    if r.selects == 0 || n < 2 {
        return 0;
    }
    let i = nd::choose(n as usize, "select");
    if i > 0 {
        r.selects -= 1;
    }
    i as u32
}

/// the branch chosen to be first is not ready: the run with the usual order covers this one
pub fn select_pending(start: u32) {
    if start != 0 && rt().preempt == 0 && !*FAIR.get() {
        nd::assume(false);
    }
}
