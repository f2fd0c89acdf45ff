//! reqwest over the in-process network of vhyper. The rig may interpose a transport which delays,
//! drops or answers requests.
pub use hyper::{Method, StatusCode};
pub use url::Url;
pub mod header {
    pub use hyper::header::*;
}
use header::HeaderMap;
use nd::env::Cell0;
use std::future::Future;
use std::pin::Pin;
use std::time::Duration;

#[derive(Debug)]
pub enum Kind {
    Connect,
    Timeout,
    Status(StatusCode),
}
#[derive(Debug)]
pub struct Error(pub Kind);
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        match self.0 {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_timeout(&self) -> bool {
        matches!(self.0, Kind::Timeout)
    }
    pub fn is_connect(&self) -> bool {
        matches!(self.0, Kind::Connect)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("reqwest error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub struct Wire {
    pub method: Method,
    pub path: String,
    pub port: u16,
    pub headers: HeaderMap,
    pub body: Vec<u8>,
}
pub type Reply = Pin<Box<dyn Future<Output = Option<(StatusCode, HeaderMap, Vec<u8>)>>>>;
type Transport = Box<dyn FnMut(Wire) -> Reply>;
static TRANSPORT: Cell0<Option<Transport>> = Cell0::new(None);
pub fn set_transport(f: impl FnMut(Wire) -> Reply + 'static) {
    *TRANSPORT.get() = Some(Box::new(f));
}
/// the plain transport: straight into the server
pub fn deliver(w: Wire) -> Reply {
    let mut b = hyper::Request::builder().method(w.method).uri(w.path);
    *b.headers_mut().unwrap() = w.headers;
    let rq = b.body(hyper::Body::from(w.body)).unwrap();
    Box::pin(hyper::net::call(w.port, rq))
}

#[derive(Clone, Debug, Default)]
pub struct Client {
    headers: HeaderMap,
    timeout: Option<Duration>,
}
#[derive(Default)]
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn default_headers(mut self, h: HeaderMap) -> Self {
        self.0.headers = h;
        self
    }
    pub fn http2_prior_knowledge(self) -> Self {
        self
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.0.timeout = Some(d);
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(self.0)
    }
}
impl Client {
    pub fn new() -> Client {
        Client::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    pub fn request(&self, m: Method, u: Url) -> RequestBuilder {
        RequestBuilder { c: self.clone(), m, u, headers: self.headers.clone(), body: vec![] }
    }
    pub fn get(&self, u: Url) -> RequestBuilder {
        self.request(Method::GET, u)
    }
    pub fn post(&self, u: Url) -> RequestBuilder {
        self.request(Method::POST, u)
    }
}
pub struct RequestBuilder {
    c: Client,
    m: Method,
    u: Url,
    headers: HeaderMap,
    body: Vec<u8>,
}
struct AssertSend<F>(F);
unsafe impl<F> Send for AssertSend<F> {}
impl<F: Future> Future for AssertSend<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
impl RequestBuilder {
    pub fn headers(mut self, h: HeaderMap) -> Self {
        for (k, v) in h.iter() {
            self.headers.insert(k.clone(), v.clone());
        }
        self
    }
    pub fn header(mut self, k: header::HeaderName, v: header::HeaderValue) -> Self {
        self.headers.insert(k, v);
        self
    }
    pub fn body(mut self, b: Vec<u8>) -> Self {
        self.body = b;
        self
    }
    pub fn into_wire(self) -> Wire {
        Wire {
            method: self.m,
            path: self.u.path().to_string(),
            port: self.u.port().unwrap_or(80),
            headers: self.headers,
            body: self.body,
        }
    }
    pub fn send(self) -> impl Future<Output = Result<Response>> + Send {
        AssertSend(async move {
            let to = self.c.timeout;
            let w = self.into_wire();
            let f = match TRANSPORT.get() {
                Some(t) => t(w),
                None => deliver(w),
            };
            let r = match to {
                Some(d) => tokio::time::timeout(d, f).await.map_err(|_| Error(Kind::Timeout))?,
                None => f.await,
            };
            match r {
                Some((status, headers, body)) => Ok(Response { status, headers, body }),
                None => Err(Error(Kind::Connect)),
            }
        })
    }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    headers: HeaderMap,
    body: Vec<u8>,
}
impl Response {
    pub fn new(status: StatusCode, headers: HeaderMap, body: Vec<u8>) -> Self {
        Response { status, headers, body }
    }
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body)
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error(Kind::Status(self.status)))
        } else {
            Ok(self)
        }
    }
}
