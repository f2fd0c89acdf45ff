pub use rtokio::time::{Duration, Instant};
use crate::rt::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// nanoseconds of virtual time of an instant
pub fn ns(i: Instant) -> u64 {
    let now = Instant::now();
    let n = nd::env::now_ns();
    if i >= now {
        n.saturating_add((i - now).as_nanos().min(u64::MAX as u128 / 2) as u64)
    } else {
        n - ((now - i).as_nanos() as u64)
    }
}
/// tokio's timer wheel has millisecond resolution: a deadline is rounded up
const MS: u64 = 1_000_000;

pub struct Sleep {
    deadline: Option<Instant>,
    at: u64,
    seq: Option<u64>,
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        match self.deadline {
            Some(d) => d,
            None => Instant::now() + Duration::from_nanos(self.at.saturating_sub(nd::env::now_ns())),
        }
    }
    pub fn is_elapsed(&self) -> bool {
        nd::env::now_ns() >= self.at
    }
    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
        self.unregister();
        *self = sleep_until(deadline);
    }
    fn unregister(&mut self) {
        if let Some(s) = self.seq.take() {
            rt().timers.retain(|t| t.seq != s);
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.unregister();
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.is_elapsed() {
            self.unregister();
            return Poll::Ready(());
        }
        self.unregister();
        let r = rt();
        r.seq += 1;
        self.seq = Some(r.seq);
        r.timers.push(Timer { deadline: self.at, seq: r.seq, waker: cx.waker().clone() });
        Poll::Pending
    }
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    let at = ns(deadline);
    let base = at.saturating_sub(nd::env::T0);
    let up = (base + MS - 1) / MS * MS;
    Sleep { deadline: Some(deadline), at: if at < nd::env::T0 { at } else { nd::env::T0 + up }, seq: None }
}
pub fn sleep(d: Duration) -> Sleep {
    let now = nd::env::now_ns();
    let n = d.as_secs().saturating_mul(1_000_000_000).saturating_add(d.subsec_nanos() as u64);
    let at = now.saturating_add(n).min(now.saturating_add(30 * 365 * 86400 * 1_000_000_000));
    Sleep { deadline: None, at: (at + MS - 1) / MS * MS, seq: None }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
pub struct Timeout<F> {
    f: F,
    s: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.f) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match unsafe { Pin::new_unchecked(&mut me.s) }.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    let s = match Instant::now().checked_add(d) {
        Some(t) => sleep_until(t),
        None => sleep_until(Instant::now() + Duration::from_secs(86400 * 365 * 30)),
    };
    Timeout { f, s }
}
pub fn timeout_at<F: Future>(t: Instant, f: F) -> Timeout<F> {
    Timeout { f, s: sleep_until(t) }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
pub struct Interval {
    next: Instant,
    period: Duration,
    missed: MissedTickBehavior,
    sleep: Pin<Box<Sleep>>,
}
impl Interval {
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.missed = m;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        if self.sleep.as_mut().poll(cx).is_pending() {
            return Poll::Pending;
        }
        let timeout = self.next;
        let now = Instant::now();
        self.next = if now > timeout + Duration::from_millis(5) {
            match self.missed {
                MissedTickBehavior::Burst => timeout + self.period,
                MissedTickBehavior::Delay => now + self.period,
                MissedTickBehavior::Skip => {
                    let p = self.period.as_nanos();
                    now + self.period - Duration::from_nanos(((now - timeout).as_nanos() % p) as u64)
                }
            }
        } else {
            timeout + self.period
        };
        let n = self.next;
        self.sleep.as_mut().reset(n);
        Poll::Ready(timeout)
    }
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
        let n = self.next;
        self.sleep.as_mut().reset(n);
    }
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { next: start, period, missed: MissedTickBehavior::Burst, sleep: Box::pin(sleep_until(start)) }
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
