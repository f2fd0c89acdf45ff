// CancellationToken (src/fancy_cancellation_token.rs) and AsyncFlag / AsyncCounter (src/async_flag.rs).
//@main
use crate::async_flag::{AsyncCounter, AsyncFlag};
use crate::fancy_cancellation_token::{CancellationState, CancellationToken};
use nd::env;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use std::time::Instant;
use tokio::rt::Manual;
use tokio::sched;

const T: u64 = 1_700_000_000;
fn at(ns: u64) -> Instant {
    env::set_raw(T, ns);
    Instant::now()
}
fn leak<X>(x: X) -> &'static X {
    Box::leak(Box::new(x))
}
#[derive(Clone, Copy)]
struct Want {
    hard: bool,
    cut: u64,
}
fn pick(i: usize) -> Want {
    let hard = nd::choose(2, "hard") == 1;
    Want { hard, cut: if hard { 0 } else { nd::below(1000, ["cut0", "cut1", "cut2", "cut3"][i]) } }
}
fn send(t: &CancellationToken, w: Want) {
    t.cancel(if w.hard { CancellationState::HardCancelled } else { CancellationState::CancelledAfterTime(at(w.cut)) });
}
/// the state all these requests amount to: hard wins, otherwise the earliest cutoff
fn verify(t: &CancellationToken, ws: &[Want], what: &str) {
    let s = t.is_soft_cancelled();
    if ws.is_empty() {
        nd::check(s.is_none(), what);
        return;
    }
    let hard = ws.iter().any(|w| w.hard);
    match s {
        None => nd::fail("a cancellation request is lost"),
        Some(CancellationState::HardCancelled) => {
            nd::check(hard, "hard cancelled although nobody asked for it");
            nd::cover("hard");
        }
        Some(CancellationState::CancelledAfterTime(c)) => {
            nd::check(!hard, "a soft cancellation replaced a hard one");
            for w in ws {
                nd::check(c <= at(w.cut), "the cutoff is later than one that was requested");
            }
            nd::check(ws.iter().any(|w| c == at(w.cut)), "the cutoff is none of those requested");
            nd::cover("soft");
        }
    }
}
struct Waiter {
    m: Manual,
    f: Pin<Box<dyn Future<Output = bool>>>,
    seen: usize,
    done: Option<bool>,
}
impl Waiter {
    /// true in the output: ended because of a hard cancellation
    fn soft(t: &'static CancellationToken, start: u64) -> Waiter {
        let i = at(start);
        Waiter::new(async move { matches!(t.soft_cancelled(i).await, CancellationState::HardCancelled) })
    }
    fn hard(t: &'static CancellationToken) -> Waiter {
        Waiter::new(async move {
            t.hard_cancelled().await;
            true
        })
    }
    fn new(f: impl Future<Output = bool> + 'static) -> Waiter {
        Waiter { m: Manual::new(), f: Box::pin(f), seen: 0, done: None }
    }
    fn poll(&mut self) {
        self.seen = self.m.count();
        if self.done.is_none() {
            if let Poll::Ready(v) = self.m.poll(self.f.as_mut()) {
                self.done = Some(v);
            }
        }
    }
    /// poll as often as it is woken
    fn settle(&mut self) {
        while self.done.is_none() && self.m.count() > self.seen {
            self.poll();
        }
    }
}

/// n requests one after another, two waiters that start waiting at arbitrary moments in between
#[no_mangle]
pub extern "C" fn h_token_seq(n: u64) {
    let t = leak(CancellationToken::new());
    let n = n as usize;
    let start = nd::below(1000, "start");
    let mut soft = Waiter::soft(t, start);
    let mut hard = Waiter::hard(t);
    let p = nd::choose(n + 1, "waiting since");
    let mut ws = vec![];
    for i in 0..=n {
        if i == p {
            soft.poll();
            hard.poll();
        }
        if i > p || i == p {
            soft.settle();
            hard.settle();
            let any = ws.iter().any(|w: &Want| w.hard);
            let due = any || ws.iter().any(|w| start > w.cut);
            nd::check(soft.done.is_some() == due, "a task is not cancelled exactly when it started after the cutoff");
            nd::check(hard.done.is_some() == any, "a waiter for hard cancellation is not woken exactly by one");
            if due {
                nd::cover("cancelled");
            } else if !ws.is_empty() {
                nd::cover("spared");
            }
        }
        verify(t, &ws, "cancelled although nobody asked for it");
        if i < n {
            let w = pick(i);
            send(t, w);
            ws.push(w);
        }
    }
}

/// requests of several threads inside each other, and a waiter that is being polled meanwhile
#[no_mangle]
pub extern "C" fn h_token_race(n: u64, preempt: u64) {
    let t = leak(CancellationToken::new());
    let start = nd::below(1000, "start");
    let mut ws = vec![];
    let mut ids = vec![];
    for i in 0..n as usize {
        let w = pick(i);
        ws.push(w);
        if i > 0 {
            ids.push(sched::concurrently(move || send(t, w)));
        }
    }
    let mut soft = Waiter::soft(t, start);
    let mut hard = Waiter::hard(t);
    sched::fine();
    sched::budgets(0, 0, preempt as u32);
    let early = nd::choose(2, "waiting first") == 1;
    if early {
        soft.poll();
        hard.poll();
        // a hard cancellation that has returned is final
        send(t, ws[0]);
    } else {
        send(t, ws[0]);
        soft.poll();
        hard.poll();
    }
    soft.settle();
    hard.settle();
    for i in ids {
        sched::force(i);
        soft.settle();
        hard.settle();
    }
    sched::budgets(0, 0, 0);
    soft.settle();
    hard.settle();
    let any = ws.iter().any(|w| w.hard);
    nd::log(1, soft.done.is_some() as u64);
    nd::log(2, hard.done.is_some() as u64);
    nd::check(hard.done.is_some() == any, "a waiter for hard cancellation is not woken exactly by one");
    if any || ws.iter().any(|w| start > w.cut) {
        nd::check(soft.done.is_some(), "a task that has to be cancelled keeps waiting");
        nd::cover("cancelled");
    } else {
        nd::check(soft.done.is_none(), "a task started before the cutoff is cancelled");
        nd::cover("spared");
    }
    verify(t, &ws, "cancelled although nobody asked for it");
}

/// set() (and unset() before it) by other threads while waiters start waiting
#[no_mangle]
pub extern "C" fn h_flag(waiters: u64, preempt: u64) {
    let f = leak(AsyncFlag::new());
    let mut ids = vec![];
    if nd::choose(2, "set and unset before") == 1 {
        f.set();
        f.unset();
    }
    ids.push(sched::concurrently(move || f.set()));
    sched::fine();
    sched::budgets(0, 0, preempt as u32);
    let mut ws: Vec<Waiter> = (0..waiters)
        .map(|_| Waiter::new(async move {
            f.wait().await;
            true
        }))
        .collect();
    for w in ws.iter_mut() {
        let unset = !sched::done(ids[0]);
        w.poll();
        if w.done.is_some() {
            nd::check(sched::done(ids[0]), "wait() returned although the flag was never set");
            nd::cover(if unset { "set meanwhile" } else { "set before" });
        }
    }
    for w in ws.iter_mut() {
        w.settle();
    }
    for i in ids {
        sched::force(i);
    }
    for w in ws.iter_mut() {
        w.settle();
        nd::check(w.done.is_some(), "the flag is set and a waiter is still asleep");
        nd::cover("woken");
    }
}

/// incr() by other threads while a waiter waits for the count to exceed `from`
#[no_mangle]
pub extern "C" fn h_counter(incrs: u64, preempt: u64) {
    let c = leak(AsyncCounter::new());
    let from = nd::choose(incrs as usize + 1, "from") as u64;
    let got = leak(env::Cell0::new(0u64));
    let ids: Vec<usize> = (0..incrs).map(|_| sched::concurrently(move || c.incr())).collect();
    sched::fine();
    sched::budgets(0, 0, preempt as u32);
    let mut w = Waiter::new(async move {
        let v = c.wait(from).await;
        *got.get() = v;
        true
    });
    w.poll();
    let check = |w: &Waiter| {
        if w.done.is_some() {
            nd::check(*got.get() > from, "wait() returned a count that is not above what was asked for");
            let left = std::mem::take(&mut tokio::rt::rt().preempt);
            nd::check(*got.get() <= c.load(), "wait() returned a count that was never reached");
            tokio::rt::rt().preempt = left;
        }
    };
    check(&w);
    let mut n = 0;
    for i in ids {
        sched::force(i);
        n += 1;
        w.settle();
        check(&w);
        let left = std::mem::take(&mut tokio::rt::rt().preempt);
        let now = c.load();
        tokio::rt::rt().preempt = left;
        nd::check(now >= n, "an increment is lost");
        if now > from {
            nd::check(w.done.is_some(), "the count is above what was asked for and the waiter is still asleep");
            nd::cover("counted");
        }
    }
    nd::check(c.load() == incrs, "the count is not the number of increments");
    nd::check(w.done.is_some() == (incrs > from), "the waiter's result does not match the final count");
}
