use crate::rt::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

struct Slot<T> {
    val: Option<T>,
    done: bool,
    waker: Option<Waker>,
}
pub struct JoinHandle<T> {
    slot: Rc<RefCell<Slot<T>>>,
    id: usize,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
#[derive(Debug)]
pub struct JoinError;
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("task was cancelled")
    }
}
impl std::error::Error for JoinError {}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        kill_task(self.id);
        let w = {
            let mut s = self.slot.borrow_mut();
            s.done = true;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn is_finished(&self) -> bool {
        self.slot.borrow().done
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.borrow_mut();
        if s.done {
            Poll::Ready(s.val.take().ok_or(JoinError))
        } else {
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_named("spawned", f)
}
pub fn spawn_named<F>(name: &'static str, f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let slot = Rc::new(RefCell::new(Slot { val: None, done: false, waker: None }));
    let s2 = slot.clone();
    let id = add_task(
        name,
        Box::pin(async move {
            let v = f.await;
            let w = {
                let mut s = s2.borrow_mut();
                s.val = Some(v);
                s.done = true;
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake()
            }
        }),
    );
    JoinHandle { slot, id }
}
pub fn block_in_place<R>(f: impl FnOnce() -> R) -> R {
    f()
}
pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}
pub fn spawn_blocking<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> JoinHandle<R> {
    spawn(async move { f() })
}
