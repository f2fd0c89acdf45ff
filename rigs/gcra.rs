// The launch rate limiter (src/time/gcra.rs), driven through RateLimiter::{new, reset, until_ready}.
//@main
use crate::time::gcra::RateLimiter;
use nd::env;
use tokio::rt::{rt, Manual};
use std::task::Poll;

const T: u64 = 1_700_000_000;
const SEC: u64 = 1_000_000_000;
/// the timer of the runtime has millisecond resolution and never fires early
const MS: u64 = 1_000_000;

fn rate_of(i: u64) -> u64 {
    [1, 2, 3, 7, 10, 60, 1000, 999_983, 4_294_967_295][i as usize]
}
fn at(ns: u64) {
    env::set_raw(T, ns);
}
/// poll a fresh until_ready() once: None when granted, otherwise the virtual time of its next wakeup
fn request(l: &RateLimiter) -> Option<u64> {
    let m = Manual::new();
    let mut f = Box::pin(l.until_ready());
    match m.poll(f.as_mut()) {
        Poll::Ready(()) => None,
        Poll::Pending => {
            let w = rt().timers.last().map(|t| t.deadline);
            nd::check(w.is_some(), "a refused request has no wakeup scheduled");
            w.map(|w| w - T * SEC)
        }
    }
}
/// any two grants i<=j at times t_i<=t_j: the (j-i+1) grants fit into the window plus one second of burst
fn window_ok(ok: &[u64], tau: u64) {
    let j = ok.len() - 1;
    for i in 0..=j {
        nd::check(((j - i + 1) as u64) * tau <= (ok[j] - ok[i]) + SEC, "more launches in a window than the rate allows");
    }
}

/// n requests at arbitrary times; every window obeys the rate, also across an arbitrary clock start
#[no_mangle]
pub extern "C" fn h_window(n: u64, ri: u64) {
    let rate = rate_of(ri);
    at(0);
    let l = RateLimiter::new(rate);
    let tau = SEC / rate;
    let (mut now, mut ok) = (0u64, vec![]);
    for _ in 0..n {
        now += nd::below(3 * SEC, "dt");
        at(now);
        let r = request(&l);
        nd::log(1, r.is_none() as u64);
        if r.is_none() {
            ok.push(now);
            nd::cover("granted");
            if tau > 0 {
                window_ok(&ok, tau);
            }
        } else {
            nd::cover("refused");
            nd::check(tau > 0, "refused although the rate is unlimited");
        }
    }
}

/// a sole waiter that is refused is granted when it wakes up, at most one interval (and one timer tick) later
#[no_mangle]
pub extern "C" fn h_wait(n: u64, ri: u64) {
    let rate = rate_of(ri);
    at(0);
    let l = RateLimiter::new(rate);
    let tau = SEC / rate;
    let mut now = 0u64;
    for _ in 0..n {
        now += nd::below(3 * SEC, "dt");
        at(now);
        if let Some(w) = request(&l) {
            nd::cover("waited");
            nd::check(w >= now, "wakeup in the past");
            nd::check(w <= now + tau + MS, "a sole waiter waits longer than one interval");
            now = w;
            at(now);
            nd::check(request(&l).is_none(), "still refused at the wakeup time although nothing else was launched");
        }
    }
}

/// after a second without launches a whole burst of `rate` launches is available at once, and not one more
#[no_mangle]
pub extern "C" fn h_burst(ri: u64) {
    let rate = rate_of(ri);
    at(0);
    let l = RateLimiter::new(rate);
    let tau = SEC / rate;
    let mut now = nd::below(2 * SEC, "a");
    at(now);
    let _ = request(&l);
    now += nd::below(5 * SEC, "idle");
    nd::assume(now >= 2 * SEC + tau);
    at(now);
    nd::assume(now >= 1);
    let first = nd::below(3 * SEC, "gap");
    nd::assume(first >= SEC + tau);
    at(now + first);
    for _ in 0..rate {
        nd::check(request(&l).is_none(), "the burst allowance is smaller than the rate");
    }
    nd::check(request(&l).is_some() || SEC % rate != 0, "more than one second's worth of launches at one instant");
    nd::cover("burst");
}

/// reset(): the new rate holds from then on; 0 lifts the limit; rate_per_second reports it
#[no_mangle]
pub extern "C" fn h_reset(n: u64, from: u64, to: u64) {
    let rates = [0, 1, 3, 10];
    let (r1, r2) = (rates[from as usize], rates[to as usize]);
    at(0);
    let l = RateLimiter::new(r1);
    nd::check(l.rate_per_second() == r1, "rate_per_second");
    let mut now = 0u64;
    for _ in 0..n {
        now += nd::below(3 * SEC, "dt");
        at(now);
        let g = request(&l);
        if r1 == 0 {
            nd::check(g.is_none(), "refused although the rate is unlimited");
        }
    }
    now += nd::below(3 * SEC, "dt");
    at(now);
    l.reset(r2);
    nd::check(l.rate_per_second() == r2, "rate_per_second after reset");
    let mut ok = vec![];
    for _ in 0..n + 1 {
        now += nd::below(3 * SEC, "dt");
        at(now);
        let g = request(&l);
        if r2 == 0 {
            nd::check(g.is_none(), "refused although the rate is unlimited");
        } else if g.is_none() {
            ok.push(now);
            window_ok(&ok, SEC / r2);
            nd::cover("granted after reset");
        } else {
            nd::check(g.unwrap() <= now + SEC / r2 + MS, "after reset a waiter waits longer than one interval");
        }
    }
}

/// requests of several threads interleaved inside each other's read-modify-write
#[no_mangle]
pub extern "C" fn h_threads(ri: u64, others: u64, preempt: u64) {
    let rate = rate_of(ri);
    let tau = SEC / rate;
    at(0);
    let l: &'static RateLimiter = Box::leak(Box::new(RateLimiter::new(rate)));
    let ok: &'static nd::env::Cell0<Vec<u64>> = Box::leak(Box::new(nd::env::Cell0::new(vec![])));
    let now = nd::below(3 * SEC, "t");
    at(now);
    tokio::sched::budgets(0, 0, preempt as u32);
    let mut ids = vec![];
    for _ in 0..others {
        ids.push(tokio::sched::concurrently(move || {
            if request(l).is_none() {
                ok.get().push(env::now_ns());
            }
        }));
    }
    if request(l).is_none() {
        ok.get().push(env::now_ns());
    }
    for i in ids {
        tokio::sched::force(i);
    }
    let k = ok.get().len() as u64;
    nd::log(2, k);
    nd::check(k * tau <= SEC, "concurrent requests exceed the burst");
    // what is available at this instant is granted: as many as one caller at a time would get
    let mut alone = 0;
    at(0);
    let m = RateLimiter::new(rate);
    at(now);
    for _ in 0..others + 1 {
        if request(&m).is_none() {
            alone += 1;
        }
    }
    nd::check(k == alone, "concurrent requests change how many launches are granted");
    nd::cover("concurrent");
}
