pub mod unix {
    use nd::env::Cell0;
    use std::task::{Poll, Waker};

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn from_raw(n: i32) -> Self {
            SignalKind(n)
        }
        pub const fn interrupt() -> Self {
            SignalKind(2)
        }
        pub const fn terminate() -> Self {
            SignalKind(15)
        }
        pub const fn user_defined1() -> Self {
            SignalKind(10)
        }
        pub const fn user_defined2() -> Self {
            SignalKind(12)
        }
        pub const fn hangup() -> Self {
            SignalKind(1)
        }
        pub const fn quit() -> Self {
            SignalKind(3)
        }
        pub const fn child() -> Self {
            SignalKind(17)
        }
        pub const fn alarm() -> Self {
            SignalKind(14)
        }
        pub const fn pipe() -> Self {
            SignalKind(13)
        }
    }
    struct Listener {
        kind: i32,
        pending: bool,
        alive: bool,
        waker: Option<Waker>,
    }
    static LISTENERS: Cell0<Vec<Listener>> = Cell0::new(Vec::new());
    pub struct Signal(usize);
    unsafe impl Send for Signal {}
    pub fn signal(k: SignalKind) -> std::io::Result<Signal> {
        LISTENERS.get().push(Listener { kind: k.0, pending: false, alive: true, waker: None });
        Ok(Signal(LISTENERS.get().len() - 1))
    }
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            let i = self.0;
            std::future::poll_fn(move |cx| {
                let l = &mut LISTENERS.get()[i];
                if std::mem::take(&mut l.pending) {
                    Poll::Ready(Some(()))
                } else {
                    l.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            })
            .await
        }
    }
    impl Drop for Signal {
        fn drop(&mut self) {
            LISTENERS.get()[self.0].alive = false;
        }
    }
    /// deliver a signal; true if something listens for it
    pub fn raise(k: i32) -> bool {
        let mut any = false;
        for l in LISTENERS.get().iter_mut().filter(|l| l.kind == k && l.alive) {
            any = true;
            l.pending = true;
            if let Some(w) = l.waker.take() {
                w.wake()
            }
        }
        any
    }
}
pub async fn ctrl_c() -> std::io::Result<()> {
    unix::signal(unix::SignalKind::interrupt())?.recv().await;
    Ok(())
}
