//! hyper with its server replaced by an in-process network: requests come from vhyper::net::call.
pub use rhyper::*;
pub mod net {
    use super::*;
    use nd::env::Cell0;
    use std::cell::Cell;
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    pub type Resp = (StatusCode, HeaderMap, Vec<u8>);
    pub type Handler = Rc<dyn Fn(Request<Body>) -> Pin<Box<dyn Future<Output = Resp>>>>;
    pub struct Listener {
        pub handler: Handler,
        pub open: bool,
        pub active: Rc<Cell<usize>>,
    }
    pub static LISTENERS: Cell0<Vec<Listener>> = Cell0::new(Vec::new());
    pub static ON_IDLE: Cell0<Vec<std::task::Waker>> = Cell0::new(Vec::new());
    struct Active(Rc<Cell<usize>>);
    impl Drop for Active {
        fn drop(&mut self) {
            self.0.set(self.0.get() - 1);
            if self.0.get() == 0 {
                for w in std::mem::take(ON_IDLE.get()) {
                    w.wake()
                }
            }
        }
    }
    /// None: connection refused. Dropping the future is a client disconnect.
    pub async fn call(port: u16, rq: Request<Body>) -> Option<Resp> {
        let l = LISTENERS.get().get(port as usize - 8000)?;
        if !l.open {
            return None;
        }
        l.active.set(l.active.get() + 1);
        let _g = Active(l.active.clone());
        let h = l.handler.clone();
        Some(h(rq).await)
    }
    pub fn of_service<S, B>(s: S) -> Handler
    where
        S: tower::Service<Request<Body>, Response = Response<B>> + Clone + 'static,
        S::Future: 'static,
        S::Error: std::fmt::Debug,
        B: body::HttpBody + 'static,
        B::Error: std::fmt::Debug,
    {
        Rc::new(move |rq| {
            let mut s = s.clone();
            Box::pin(async move {
                std::future::poll_fn(|cx| s.poll_ready(cx)).await.expect("service not ready");
                let r = s.call(rq).await.expect("service failed");
                let (parts, body) = r.into_parts();
                let b = match body::to_bytes(body).await {
                    Ok(b) => b.to_vec(),
                    Err(e) => panic!("body: {e:?}"),
                };
                (parts.status, parts.headers, b)
            })
        })
    }
}
pub mod server {
    pub use rhyper::server::*;
}
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};
pub struct Server<F = std::future::Pending<()>> {
    port: u16,
    shutdown: Option<F>,
}
pub struct Builder;
impl Server {
    pub fn bind(_: &SocketAddr) -> Builder {
        Builder
    }
    pub fn builder<A>(_: A) -> Builder {
        Builder
    }
    pub fn local_addr(&self) -> SocketAddr {
        SocketAddr::from(([127, 0, 0, 1], self.port))
    }
    pub fn with_graceful_shutdown<F: Future<Output = ()>>(self, f: F) -> Server<F> {
        let port = self.port;
        std::mem::forget(self);
        Server { port, shutdown: Some(f) }
    }
}
impl Builder {
    pub fn serve<M, S, B>(self, mut make: M) -> Server
    where
        M: tower::Service<(), Response = S>,
        M::Error: std::fmt::Debug,
        S: tower::Service<Request<Body>, Response = Response<B>> + Clone + 'static,
        S::Future: 'static,
        S::Error: std::fmt::Debug,
        B: body::HttpBody + 'static,
        B::Error: std::fmt::Debug,
    {
        use futures::FutureExt;
        let s = make.call(()).now_or_never().expect("make service").expect("make service");
        let handler = net::of_service(s);
        net::LISTENERS.get().push(net::Listener { handler, open: true, active: Default::default() });
        Server { port: 8000 + net::LISTENERS.get().len() as u16 - 1, shutdown: None }
    }
}
impl<F: Future<Output = ()>> Future for Server<F> {
    type Output = std::result::Result<(), Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Some(f) = me.shutdown.as_mut() {
            if unsafe { Pin::new_unchecked(f) }.poll(cx).is_pending() {
                return Poll::Pending;
            }
            me.shutdown = None;
            net::LISTENERS.get()[me.port as usize - 8000].open = false;
        }
        let l = &net::LISTENERS.get()[me.port as usize - 8000];
        if l.open || l.active.get() > 0 {
            net::ON_IDLE.get().push(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
}
impl<F> Drop for Server<F> {
    fn drop(&mut self) {
        net::LISTENERS.get()[self.port as usize - 8000].open = false;
    }
}
