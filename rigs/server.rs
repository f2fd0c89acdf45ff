// The controller's HTTP interface: ExecGraph::execute with a provisioner, requests through its real router.
//@main
use crate::execgraph::{Cmd, ExecGraph, RemoteProvisionerSpec};
use crate::http_extensions::reqwest::{RequestBuilderExt, ResponseExt};
use crate::httpinterface::*;
use crate::logfile2::*;
use bitvec::array::BitArray;
use hyper::{Body, Method, StatusCode};
use nd::env::{self, Cell0};
use std::result::Result;
use std::time::Duration;
use tokio::sched;

pub const SEC: u64 = 1_000_000_000;
pub const MS: u64 = 1_000_000;
pub const LOG: &str = "/ndfs/w.log";
pub const PORT: u16 = 8000;
pub const ADMIN: u16 = 8001;

#[derive(Default)]
pub struct W {
    pub keys: Vec<String>,
    pub deps: Vec<Vec<usize>>,
    pub token: String,
    pub url: String,
    /// the rig's part is over
    pub over: bool,
    pub pre: Vec<usize>,
    pub post: Vec<Vec<(u32, u32, u64)>>,
    /// when the end of each task was taken note of
    pub ended: Vec<Option<u64>>,
}
static WORLD: Cell0<Option<W>> = Cell0::new(None);
pub fn w() -> &'static mut W {
    WORLD.get().get_or_insert_with(W::default)
}
/// any dag on n nodes in index order
pub fn dag(n: usize) -> Vec<Vec<usize>> {
    (0..n).map(|j| (0..j).filter(|_| nd::choose(2, "edge") == 1).collect()).collect()
}
pub fn open() -> LogFile<LogFileRW> {
    let mut l = LogFile::<LogFileRW>::new(LOG).unwrap();
    l.write(LogEntry::Header(HeaderEntry {
        version: LOGFILE_VERSION,
        time: std::time::SystemTime::now(),
        user: "u".into(),
        hostname: "h".into(),
        workflow_key: "wf".into(),
        cmdline: vec![],
        workdir: "/".into(),
        pid: 1,
        storage_roots: vec![],
    }))
    .unwrap();
    l
}
pub fn read_log() -> Vec<LogEntry> {
    LogFileSnapshotReader::open(LOG.into()).unwrap().read().unwrap()
}
/// one task's part of the log: entries in order, 'r' ready, 's' started, and the status it finished with
pub fn life(key: &str) -> (String, Vec<i32>) {
    let mut s = String::new();
    let mut st = vec![];
    for e in read_log() {
        match e {
            LogEntry::Ready(r) if r.key == key => s.push('r'),
            LogEntry::Started(r) if r.key == key => s.push('s'),
            LogEntry::Finished(r) if r.key == key => {
                s.push('f');
                st.push(r.status)
            }
            _ => {}
        }
    }
    (s, st)
}
pub type Raw = (StatusCode, hyper::HeaderMap, Vec<u8>);
#[derive(Clone)]
pub struct Client {
    pub job: Option<String>,
    pub auth: Option<String>,
}
impl Client {
    pub fn new(job: &str) -> Client {
        Client { job: Some(job.into()), auth: Some(format!("Bearer {}", w().token)) }
    }
    pub fn rq(&self, m: Method, path: &str) -> reqwest::RequestBuilder {
        let u = reqwest::Url::parse(&format!("http://127.0.0.1:8000{path}")).unwrap();
        let mut r = reqwest::Client::new().request(m, u);
        if let Some(a) = &self.auth {
            r = r.header(hyper::header::AUTHORIZATION, hyper::header::HeaderValue::from_str(a).unwrap());
        }
        if let Some(j) = &self.job {
            r = r.header(hyper::header::HeaderName::from_static("x-execgraph-slurm-job-id"), hyper::header::HeaderValue::from_str(j).unwrap());
        }
        r
    }
    pub async fn send<T: serde::Serialize>(&self, m: Method, path: &str, t: &T) -> Option<Raw> {
        reqwest::deliver(self.rq(m, path).postcard(t).unwrap().into_wire()).await
    }
    pub async fn start(&self, ty: u32) -> Result<StartResponse, u16> {
        let rq = StartRequest { runnertypeid: ty, disconnect_error_message: "gone".into() };
        let r = decode(self.send(Method::GET, "/start", &rq).await).await;
        handed_out(&r, |r| Some(task_of(r)));
        r
    }
    pub async fn begun(&self, t: u32) -> u16 {
        code(self.send(Method::POST, "/begun", &BegunRequest { transaction_id: t, host: "n1".into(), pid: 77 }).await)
    }
    pub async fn ping(&self, t: u32) -> u16 {
        code(self.send(Method::POST, "/ping", &Ping { transaction_id: t }).await)
    }
    pub async fn end(&self, t: u32, status: i32, more: Option<u32>) -> Result<EndResponse, u16> {
        let rq = EndRequest {
            transaction_id: t,
            status,
            stdout: "".into(),
            stderr: "".into(),
            values: vec![],
            start_request: more.map(|ty| StartRequest { runnertypeid: ty, disconnect_error_message: "gone".into() }),
        };
        let r = decode(self.send(Method::POST, "/end", &rq).await).await;
        handed_out(&r, |r: &EndResponse| r.start_response.as_ref().map(task_of));
        r
    }
    pub async fn mark(&self, jobs: &[&str]) -> Result<Vec<String>, u16> {
        let b = MarkSlurmJobCancelationRequest { jobids: jobs.iter().map(|s| s.to_string()).collect() };
        let r = self.rq(Method::POST, "/mark-slurm-job-cancelation").header(hyper::header::CONTENT_TYPE, hyper::header::HeaderValue::from_static("application/json"));
        let r = reqwest::deliver(r.body(serde_json::to_vec(&b).unwrap()).into_wire()).await.ok_or(0u16)?;
        if r.0 != StatusCode::OK {
            return Err(r.0.as_u16());
        }
        Ok(serde_json::from_slice::<MarkSlurmJobCancelationReply>(&r.2).unwrap().jobids)
    }
}
pub fn code(r: Option<Raw>) -> u16 {
    r.map(|r| r.0.as_u16()).unwrap_or(0)
}
pub async fn decode<T: serde::de::DeserializeOwned>(r: Option<Raw>) -> Result<T, u16> {
    let r = r.ok_or(0u16)?;
    if r.0 != StatusCode::OK {
        return Err(r.0.as_u16());
    }
    Ok(reqwest::Response::new(r.0, r.1, r.2).postcard().await.unwrap())
}
/// JSON request to the status or admin endpoints
pub async fn json<T: serde::Serialize>(port: u16, m: Method, path: &str, t: Option<&T>) -> Option<Raw> {
    let mut b = hyper::Request::builder().method(m).uri(path);
    let body = match t {
        None => vec![],
        Some(t) => {
            b = b.header(hyper::header::CONTENT_TYPE, "application/json");
            serde_json::to_vec(t).unwrap()
        }
    };
    hyper::net::call(port, b.body(Body::from(body)).unwrap()).await
}
pub async fn status() -> Option<StatusReply> {
    let r = json::<()>(PORT, Method::GET, "/status", None).await?;
    Some(serde_json::from_slice(&r.2).unwrap())
}
/// the provisioner is a process that stays; its start brings up the clients
pub fn provisioner(f: impl FnOnce() + 'static) {
    let mut f = Some(f);
    tokio::process::set_spawner(move |rq| {
        nd::check(rq.program == "prov", "something else than the provisioner is launched");
        w().url = rq.args[0].to_str().unwrap().into();
        for (k, v) in &rq.env {
            if k == "EXECGRAPH_AUTHORIZATION_TOKEN" {
                w().token = v.to_str().unwrap().into();
            }
        }
        nd::check(!w().token.is_empty(), "C13: the provisioner is not told the token");
        (f.take().unwrap())();
        Ok(Box::pin(async move {
            let _keep = rq;
            std::future::pending::<()>().await;
            0
        }))
    });
    nd::fs::set_kill(tokio::process::kill);
}
fn preamble(ctx: *const std::ffi::c_void, _: u32, _: u32, _: u32, _: u64) -> i32 {
    w().pre[ctx as usize - 1] += 1;
    0
}
fn postamble(ctx: *const std::ffi::c_void, success: u32, runcount: u32, _lost: u32, ntasks: u64) -> i32 {
    w().post[ctx as usize - 1].push((success, runcount, ntasks));
    w().ended[ctx as usize - 1].get_or_insert(env::now_ns());
    0
}
fn capsule(f: fn(*const std::ffi::c_void, u32, u32, u32, u64) -> i32, i: usize) -> Option<crate::execgraph::Capsule> {
    Some(crate::execgraph::Capsule::new(pyo3::PyObject::capsule(f as *mut std::ffi::c_void, (i + 1) as *mut std::ffi::c_void)))
}
/// after the log is closed
pub fn check_callbacks() {
    for i in 0..w().keys.len() {
        let (l, st) = life(&w().keys[i]);
        let p = &w().post[i];
        if l.contains('f') {
            nd::check(w().pre[i] > 0, "C26: the preamble of a task that ran was not called");
        }
        nd::check(w().pre[i] < 2, "C26: a preamble was called more than once");
        nd::check(w().pre[i] == 0 || l.contains('r'), "C26: the preamble of a task that did not become ready was called");
        if l.contains('s') {
            nd::check(p.len() == st.len(), if p.len() < st.len() { "C26: the postamble of a task that ran was not called" } else { "C26: a postamble was called more than once" });
        } else {
            nd::check(p.len() <= (w().pre[i] > 0) as usize, "C26: the postamble of a task that did not run was called");
        }
        for (a, b) in p.iter().zip(&st) {
            nd::check((a.0 != 0) == (*b == 0), "C26: the postamble was told another result than the log");
            nd::check(a.1 == 5 + i as u32 && a.2 == w().keys.len() as u64, "C26: the postamble was told another run count or number of tasks");
        }
    }
}
pub fn handed_out<T>(r: &Result<T, u16>, f: impl Fn(&T) -> Option<usize>) {
    if let Ok(t) = r {
        if let Some(i) = f(t) {
            nd::check(w().pre[i] > 0, "C26: a task was handed out before its preamble was called");
        }
    }
}
pub fn graph(deps: Vec<Vec<usize>>, aff: impl Fn(usize) -> u64) -> ExecGraph {
    unsafe { ::time::util::local_offset::set_soundness(::time::util::local_offset::Soundness::Unsound) };
    let mut g = ExecGraph::new(open());
    for (i, d) in deps.iter().enumerate() {
        let c = Cmd {
            cmdline: vec!["run".into(), i.to_string().into()],
            key: format!("k{i}"),
            display: Some("d".into()),
            affinity: BitArray::new(aff(i)),
            preamble: capsule(preamble, i),
            postamble: capsule(postamble, i),
            runcount: 5 + i as u32,
            ..Cmd::default()
        };
        w().keys.push(c.key.clone());
        w().pre.push(0);
        w().post.push(vec![]);
        w().ended.push(None);
        g.add_task(c, d.iter().map(|&d| d as u32).collect()).unwrap();
    }
    w().deps = deps;
    g
}
pub fn spec() -> Option<RemoteProvisionerSpec> {
    Some(RemoteProvisionerSpec { cmd: "prov".into(), info: None })
}
pub fn task_of(r: &StartResponse) -> usize {
    r.cmdline[1].to_str().unwrap().parse().unwrap()
}
pub fn execute(g: &mut ExecGraph, local: u32, fails: u32, rate: u32) -> Option<(u32, Vec<String>)> {
    tokio::rt::rt().max_polls = 20000;
    match tokio::rt::try_block_on(g.execute(None, local, fails, true, spec(), rate)) {
        Ok(r) => Some(r.unwrap()),
        Err(_) => {
            nd::fail("the execution does not end");
            None
        }
    }
}

/// one honest runner; the whole way through
#[no_mangle]
pub extern "C" fn h_honest(n: u64, secs: u64) {
    let mut g = graph(dag(n as usize), |_| 2);
    provisioner(move || {
        tokio::task::spawn_named("runner", async move {
            let c = Client::new("1");
            let mut next = c.start(1).await;
            let mut k = 0;
            while let Ok(r) = next {
                nd::check(c.begun(r.transaction_id).await == 200, "begun");
                tokio::time::sleep(Duration::from_secs(secs)).await;
                k += 1;
                next = match c.end(r.transaction_id, 0, Some(1)).await {
                    Ok(e) => Ok(e.start_response.unwrap()),
                    Err(e) => Err(e),
                };
            }
            nd::dbg("code", next.err().unwrap() as u64);
            nd::log(1, k);
        });
    });
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    drop(g);
    check_callbacks();
    nd::check(nf == 0 && done.len() == n as usize, "all ran");
    for k in &w().keys {
        nd::check(life(k) == ("rsf".to_string(), vec![0]), "life");
    }
    nd::cover("done");
}

/// the status tells the mean duration of the tasks that succeeded
#[no_mangle]
pub extern "C" fn h_mean_status(n: u64) {
    let mut g = graph(vec![vec![]; n as usize], |_| 2);
    provisioner(move || {
        tokio::task::spawn_named("runner", async move {
            let c = Client::new("1");
            let mut ms = vec![];
            for i in 0..n {
                let r = c.start(1).await.unwrap();
                c.begun(r.transaction_id).await;
                tokio::time::sleep(Duration::from_millis(100)).await;
                let d = [0, 900, 6000][nd::choose(3, "duration")];
                let st = nd::choose(2, "result");
                tokio::time::sleep(Duration::from_millis(d)).await;
                let _ = c.end(r.transaction_id, st as i32, None).await;
                if st == 0 {
                    ms.push(100 + d);
                }
                if i + 1 < n {
                    tokio::time::sleep(Duration::from_millis(100)).await;
                    let mean = if ms.is_empty() { 0 } else { ms.iter().sum::<u64>() / ms.len() as u64 };
                    let got = status().await.unwrap().average_recent_task_runtime;
                    // the task may have been recorded as started a moment after the request
                    nd::check((got * 1000.0 - mean as f32).abs() < 2.0, "C27: the reported mean duration is not that of the tasks that succeeded");
                    nd::log(1, (got * 1000.0) as u64);
                    nd::cover(if ms.is_empty() { "no mean yet" } else { "mean duration" });
                }
            }
        });
    });
    let Some(_) = execute(&mut g, 0, u32::MAX, 0) else { return };
    drop(g);
    check_callbacks();
}

/// results of every size come in with their values
#[no_mangle]
pub extern "C" fn h_large(sizes: u64) {
    let n = [1, 130, 100_000, 2_200_000][nd::choose(sizes as usize, "bytes of output")];
    let where_ = nd::choose(3, "where");
    let status = [1, -15][nd::choose(2, "status")];
    let mut g = graph(vec![vec![]], |_| 2);
    provisioner(move || {
        tokio::task::spawn_named("runner", async move {
            let c = Client::new("1");
            let r = c.start(1).await.unwrap();
            nd::check(c.begun(r.transaction_id).await == 200, "begun");
            tokio::time::sleep(Duration::from_secs(6)).await;
            let big = "x".repeat(n);
            let rq = EndRequest {
                transaction_id: r.transaction_id,
                status,
                stdout: if where_ == 0 { big.clone() } else { String::new() },
                stderr: if where_ == 1 { big.clone() } else { String::new() },
                values: vec![std::collections::HashMap::from([("k".to_string(), if where_ == 2 { big } else { "v".into() })])],
                start_request: None,
            };
            let a = code(c.send(Method::POST, "/end", &rq).await);
            nd::check(a == 200, "C20,C14: the result of a task is refused");
            nd::log(1, a as u64);
        });
    });
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    drop(g);
    check_callbacks();
    nd::check(nf == 1 && done.len() == 1, "C20,C14: the execution does not count the task's failure");
    let mut seen = false;
    for e in read_log() {
        if let LogEntry::Finished(f) = e {
            seen = true;
            nd::check(f.status == status, "C20,C14: the recorded status is not the reported one");
            nd::check(f.values.len() == 1 && f.values[0]["k"].len() == if where_ == 2 { n } else { 1 }, "C20,C14: the recorded values are not the reported ones");
        }
    }
    nd::check(seen, "C20,C14: the result is not recorded");
    nd::cover("result of any size");
}

/// what the harness knows about a hand-out
#[derive(Clone)]
pub struct Tr {
    id: u32,
    task: usize,
    job: usize,
    ty: u32,
    open: bool,
    begun: bool,
}
/// results of failed tasks: signals, exit codes, errors of the runner
const BAD: [i32; 4] = [-64, 255, 3, -1];
// one is the beginning of the other
const JOBS: [&str; 2] = ["11", "111"];
/// Reference model of the controller: what is ready, handed out, finished
#[derive(Default)]
pub struct Model {
    n: usize,
    aff: Vec<u64>,
    /// 0 waiting, 1 ready, 2 handed out, 3 finished
    st: Vec<u8>,
    ok: Vec<bool>,
    tr: Vec<Tr>,
}
impl Model {
    fn new(aff: Vec<u64>) -> Model {
        let n = aff.len();
        let mut m = Model { n, aff, st: vec![0; n], ok: vec![false; n], tr: vec![] };
        m.settle();
        m
    }
    fn settle(&mut self) {
        for i in 0..self.n {
            if self.st[i] == 0 && w().deps[i].iter().all(|&d| self.st[d] == 3 && self.ok[d]) {
                self.st[i] = 1;
            }
        }
    }
    /// the length of the longest chain of dependencies
    fn prio(&self, i: usize) -> usize {
        w().deps[i].iter().map(|&j| 1 + self.prio(j)).max().unwrap_or(0)
    }
    fn avail(&self, ty: u32) -> bool {
        (0..self.n).any(|i| self.st[i] == 1 && self.aff[i] >> ty & 1 == 1)
    }
    fn live(&self) -> bool {
        self.st.iter().any(|&s| s == 1 || s == 2)
    }
    fn given(&mut self, r: &StartResponse, job: usize, ty: u32) {
        let i = task_of(r);
        nd::check(self.st[i] == 1, "C14,C09: a task is handed out that is not ready to run");
        nd::check(self.aff[i] >> ty & 1 == 1, "C09: a task is handed to a runner of a type it does not allow");
        let best = (0..self.n).filter(|&j| self.st[j] == 1 && self.aff[j] >> ty & 1 == 1).map(|j| self.prio(j)).max().unwrap_or(0);
        nd::check(self.prio(i) >= best, "C09: a task is handed out although one of higher priority is ready");
        nd::check(!self.tr.iter().any(|t| t.open && t.id == r.transaction_id), "C14: two open hand-outs share a transaction");
        for t in self.tr.iter_mut().filter(|t| t.id == r.transaction_id) {
            t.id = 0; // number used again later
        }
        self.st[i] = 2;
        self.tr.push(Tr { id: r.transaction_id, task: i, job, ty, open: true, begun: false });
    }
    fn finish(&mut self, k: usize, ok: bool) {
        let i = self.tr[k].task;
        self.tr[k].open = false;
        self.st[i] = 3;
        self.ok[i] = ok;
        self.settle();
    }
    /// the status must say what the model says
    async fn status(&self) {
        if !self.live() {
            return;
        }
        let Some(s) = status().await else {
            nd::fail("C10: no status while the execution is going on");
            return;
        };
        nd::check(s.num_total_tasks as usize == self.n, "C10: the status has a wrong total number of tasks");
        nd::check(s.num_unready_tasks as usize == self.st.iter().filter(|&&x| x == 0).count(), "C10: the status has a wrong number of unready tasks");
        let mut seen = vec![];
        for (a, q) in &s.queues {
            seen.push(*a);
            let of = |st: u8| (0..self.n).filter(|&i| self.aff[i] == *a && self.st[i] == st).count();
            nd::check(q.num_ready as usize == of(1), "C10: the status has a wrong number of ready tasks");
            nd::check(q.num_inflight as usize == of(2), "C10: the status has a wrong number of running tasks");
        }
        for i in 0..self.n {
            nd::check(self.st[i] == 0 || self.st[i] == 3 || seen.contains(&self.aff[i]), "C10: the status leaves out a queue");
        }
    }
}
async fn settle_down() {
    // everything that can happen without time passing
    tokio::time::sleep(Duration::from_millis(1)).await;
}
/// every history of `steps` requests in a row after the first hand-out: known, unknown, repeated, foreign
#[no_mangle]
pub extern "C" fn h_proto(n: u64, steps: u64, coll: u64) {
    let n = n as usize;
    static COLL: Cell0<u64> = Cell0::new(0);
    static LAST: Cell0<u128> = Cell0::new(0);
    *COLL.get() = coll;
    rand::set_source(|| {
        if *COLL.get() > 0 && nd::choose(2, "same number again") == 1 {
            *COLL.get() -= 1;
            return *LAST.get();
        }
        *LAST.get() += 1;
        *LAST.get()
    });
    let mut g = graph(dag(n), |_| 2);
    provisioner(move || {
        tokio::task::spawn_named("clients", async move {
            *FINAL.get() = Some(Model::new(vec![2; n]));
            let m = FINAL.get().as_mut().unwrap();
            settle_down().await;
            m.status().await;
            let c: Vec<Client> = JOBS.iter().map(|j| Client::new(j)).collect();
            let r = c[0].start(1).await.ok().unwrap();
            m.given(&r, 0, 1);
            for _ in 0..steps {
                if !m.live() {
                    break;
                }
                // start, or something about a transaction: known, or never given out
                let k = nd::choose(m.tr.len() + 2, "which");
                if k == m.tr.len() + 1 {
                    if !m.avail(1) {
                        nd::assume(false);
                    }
                    let job = nd::choose(2, "job");
                    match c[job].start(1).await {
                        Ok(r) => m.given(&r, job, 1),
                        Err(_) => nd::fail("C14,C09: a runner gets no work although a task is ready"),
                    }
                    nd::cover("start");
                } else if k == m.tr.len() {
                    let t = 0x7777_0000;
                    match nd::choose(4, "what") {
                        3 => {
                            let ty = nd::u32("type");
                            nd::assume(ty >= 64);
                            nd::check(c[1].start(ty).await.is_err(), "C09,C14: a task is handed to a runner of a type that no task can allow");
                        }
                        0 => nd::check(c[0].begun(t).await == 404, "C14: an unknown transaction is accepted"),
                        1 => nd::check(c[0].end(t, 0, None).await.err() == Some(404), "C14: an unknown transaction is accepted"),
                        _ => {
                            c[0].ping(t).await;
                        }
                    }
                    nd::cover("unknown");
                } else {
                    let t = m.tr[k].clone();
                    match nd::choose(5, "what") {
                        0 => {
                            let job = t.job;
                            let s = c[job].begun(t.id).await;
                            nd::check(t.open || s == 404, "C14: a finished transaction is accepted again");
                            nd::check(!t.open || t.begun || s == 200, "C14: an open transaction is refused");
                            nd::cover(if !t.open { "repeated" } else if t.begun { "begun again" } else { "begun" });
                            m.tr[k].begun |= t.open;
                        }
                        1 => {
                            let s = c[t.job].ping(t.id).await;
                            nd::check(!t.open || s == 200, "C14: an open transaction is refused");
                        }
                        2 => {
                            // from another job
                            let r = c[1 - t.job].end(t.id, 0, None).await;
                            nd::check(r.is_err(), "C14: a result is taken from a job that was not given the task");
                            nd::cover("foreign");
                        }
                        x => {
                            let ok = nd::choose(2, "status") == 0;
                            let more = (x == 4).then_some(1);
                            let before = m.avail(1);
                            if t.open {
                                m.finish(k, ok);
                                if more.is_some() && !m.avail(1) {
                                    // it would wait for work (or be told that it is over)
                                    nd::assume(!m.live());
                                }
                            } else if more.is_some() {
                                nd::assume(false);
                            }
                            let r = c[t.job].end(t.id, if ok { 0 } else { BAD[t.task % 4] }, more).await;
                            if !t.open {
                                nd::check(r.err() == Some(404), "C14: a second result is taken for one hand-out");
                                nd::cover("repeated");
                            } else if more.is_none() {
                                nd::check(matches!(r, Ok(e) if e.start_response.is_none()), "C14: a result is refused");
                                nd::cover("end");
                            } else {
                                match r {
                                    Ok(e) => match e.start_response {
                                        Some(s) => {
                                            m.given(&s, t.job, 1);
                                            nd::cover(if before { "end with more work" } else { "end with work it made ready" });
                                        }
                                        None => nd::fail("C14: a runner gets no work although a task is ready"),
                                    },
                                    Err(e) => nd::check(!m.live() && e == 410, "C14: a runner gets no work although a task is ready"),
                                }
                            }
                        }
                    }
                }
                settle_down().await;
                m.status().await;
            }
            // the rest in good order
            *COLL.get() = 0;
            while m.live() {
                if m.avail(1) {
                    match c[1].start(1).await {
                        Ok(r) => m.given(&r, 1, 1),
                        Err(_) => nd::fail("C14,C09: a runner gets no work although a task is ready"),
                    }
                }
                for k in 0..m.tr.len() {
                    if m.tr[k].open {
                        let t = m.tr[k].clone();
                        m.finish(k, true);
                        let r = c[t.job].end(t.id, 0, None).await;
                        nd::check(r.is_ok(), "C14: a result is refused");
                    }
                }
                settle_down().await;
            }
        });
    });
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    drop(g);
    check_callbacks();
    let m = FINAL.get().as_ref().unwrap();
    for i in 0..n {
        let (l, s) = life(&w().keys[i]);
        if m.st[i] == 3 {
            nd::check(l == "rsf" && s.len() == 1 && (s[0] == 0) == m.ok[i] && (s[0] == 0 || s[0] == BAD[i % 4]), "C14,C04: the log does not have exactly the one result reported for a task");
        } else {
            nd::check(l.is_empty(), "C01,C14: a task below a failure is in the log");
        }
        nd::log(i as u64, s.len() as u64);
    }
    nd::check(nf as usize == (0..n).filter(|&i| m.st[i] == 3 && !m.ok[i]).count(), "C02,C14: the number of failures is wrong");
    nd::check(done.len() == (0..n).filter(|&i| m.st[i] == 3).count(), "C02,C14: the finished tasks are not those that ran");
}
static FINAL: Cell0<Option<Model>> = Cell0::new(None);

/// several honest runners of different types at once
#[derive(Default)]
struct Race {
    ran: Vec<usize>,
    done: Vec<Option<i32>>,
    aff: Vec<u64>,
    waiting: Vec<Option<u32>>,
    over: usize,
}
static RACE: Cell0<Option<Race>> = Cell0::new(None);
fn race() -> &'static mut Race {
    RACE.get().get_or_insert_with(Race::default)
}
fn got(r: &StartResponse, who: usize, ty: u32) -> usize {
    let x = race();
    let i = task_of(r);
    x.waiting[who] = None;
    x.ran[i] += 1;
    nd::check(x.ran[i] == 1, "C02,C09,C14: a task is handed out twice");
    nd::check(x.aff[i] >> ty & 1 == 1, "C09: a task is handed to a runner of a type it does not allow");
    for &d in &w().deps[i] {
        nd::check(x.done[d] == Some(0), "C01: a task is handed out before its dependencies succeeded");
    }
    i
}
async fn honest(who: usize, ty: u32, job: &'static str, secs: u64, more: bool, kinds: u64) {
    let c = Client::new(job);
    race().waiting[who] = Some(ty);
    let mut next = c.start(ty).await;
    loop {
        let r = match next {
            Ok(r) => r,
            Err(429) => {
                next = c.start(ty).await;
                continue;
            }
            Err(e) => {
                nd::check(e == 410 || e == 0, "C14: a runner is refused");
                race().waiting[who] = None;
                break;
            }
        };
        let i = got(&r, who, ty);
        nd::check(c.begun(r.transaction_id).await == 200, "C14: an open transaction is refused");
        if secs > 0 {
            tokio::time::sleep(Duration::from_secs(secs)).await;
        }
        let st = if kinds > 1 && nd::choose(2, "status") == 1 { BAD[i % 4] } else { 0 };
        race().done[i] = Some(st);
        if more {
            race().waiting[who] = Some(ty);
        }
        match c.end(r.transaction_id, st, more.then_some(ty)).await {
            Err(e) => {
                nd::check(more && e == 410 || more && e == 429, "C14: a result is refused");
                next = Err(e);
            }
            Ok(e) if more => next = e.start_response.ok_or(0),
            Ok(_) => {
                race().waiting[who] = Some(ty);
                next = c.start(ty).await
            }
        }
    }
    race().over += 1;
}
/// half-way between the things that happen, the status must be true
async fn observer() {
    tokio::time::sleep(Duration::from_millis(500)).await;
    loop {
        let x = race();
        let n = x.ran.len();
        let ready = |i: usize| x.ran[i] == 0 && w().deps[i].iter().all(|&d| x.done[d] == Some(0));
        if !(0..n).any(|i| ready(i) || x.ran[i] > 0 && x.done[i].is_none()) {
            break;
        }
        let Some(s) = status().await else {
            nd::fail("C10: no status while the execution is going on");
            return;
        };
        for (a, q) in &s.queues {
            let r = (0..n).filter(|&i| x.aff[i] == *a && ready(i)).count();
            let f = (0..n).filter(|&i| x.aff[i] == *a && x.ran[i] > 0 && x.done[i].is_none()).count();
            nd::check(q.num_ready as usize == r && q.num_inflight as usize == f, "C10: the status has a wrong number of tasks in a queue");
            nd::cover("observed");
        }
        let un = (0..n).filter(|&i| x.ran[i] == 0 && !ready(i)).count();
        nd::check(s.num_unready_tasks as usize == un && s.num_total_tasks as usize == n, "C10: the status has a wrong number of unready tasks");
        tokio::time::sleep(Duration::from_secs(1)).await;
    }
}
fn nobody_waits_in_vain() {
    let x = race();
    for i in 0..x.ran.len() {
        let ready = x.ran[i] == 0 && w().deps[i].iter().all(|&d| x.done[d] == Some(0));
        for ty in x.waiting.iter().flatten() {
            nd::check(!ready || x.aff[i] >> ty & 1 == 0, "C09: a runner waits although a task it may run is ready");
        }
    }
}
/// n tasks, runners of types 1..=types at the same time; with `more`, work is asked for together with the result
#[no_mangle]
pub extern "C" fn h_race(n: u64, runners: u64, types: u64, more: u64, kinds: u64, delays: u64, selects: u64, preempt: u64) {
    let n = n as usize;
    let aff: Vec<u64> = (0..n)
        .map(|_| match types {
            1 => 2,
            _ => [2u64, 1 << 63, 2 | 1 << 63][nd::choose(3, "affinity")],
        })
        .collect();
    let a2 = aff.clone();
    let mut g = graph(dag(n), move |i| a2[i]);
    *RACE.get() = Some(Race { ran: vec![0; n], done: vec![None; n], aff, waiting: vec![None; runners as usize], over: 0 });
    provisioner(move || {
        for k in 0..runners as usize {
            let ty = if types > 1 && k % 2 == 1 { 63 } else { 1 };
            tokio::task::spawn_named("runner", honest(k, ty, ["11", "12", "13"][k], 1, more == 1, kinds));
        }
        tokio::task::spawn_named("observer", observer());
        sched::budgets(delays as u32, selects as u32, preempt as u32);
    });
    tokio::rt::rt().idle_hook = Some(Box::new(|| {
        if !w().token.is_empty() {
            nobody_waits_in_vain();
        }
        false
    }));
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    sched::budgets(0, 0, 0);
    drop(g);
    check_callbacks();
    let x = race();
    let mut ran = 0;
    for i in 0..n {
        let can = w().deps[i].iter().all(|&d| x.done[d] == Some(0));
        nd::check((x.ran[i] == 1) == can, if can { "C02: a task whose dependencies succeeded was never run" } else { "C01: a task below a failure was run" });
        let (l, s) = life(&w().keys[i]);
        if can {
            ran += 1;
            nd::check(l == "rsf" && Some(s[0]) == x.done[i], "C04,C14: the log does not have exactly the one result reported for a task");
            nd::cover("ran");
        }
        nd::log(i as u64, l.len() as u64);
    }
    nd::check(nf as usize == x.done.iter().filter(|d| matches!(d, Some(s) if *s != 0)).count(), "C02,C14: the number of failures is wrong");
    nd::check(done.len() == ran, "C02,C14: the finished tasks are not those that ran");
}

/// a job is marked as cancelled while its runner and another one are at work
#[no_mangle]
pub extern "C" fn h_mark(n: u64, more: u64, late: u64, delays: u64, selects: u64, preempt: u64) {
    let n = n as usize;
    #[derive(Default)]
    struct M {
        holds: bool,
        asking: bool,
        moves: usize,
        confirmed: bool,
        done: Vec<usize>,
    }
    static M: Cell0<Option<M>> = Cell0::new(None);
    *M.get() = Some(M { holds: false, asking: false, moves: 0, confirmed: false, done: vec![0; n] });
    fn m() -> &'static mut M {
        M.get().as_mut().unwrap()
    }
    fn took(r: &StartResponse) {
        nd::check(!m().confirmed, "C15: a job that was confirmed as cancelled is given a task");
        m().holds = true;
        m().moves += 1;
        m().done[task_of(r)] += 1;
        nd::check(m().done[task_of(r)] == 1, "C02,C14,C15: a task is handed out twice");
    }
    let mut g = graph(dag(n), |_| 2);
    let when = nd::choose(late as usize + 1, "when") as u64;
    provisioner(move || {
        tokio::task::spawn_named("job 11", async move {
            let c = Client::new("11");
            let mut next = c.start(1).await;
            while let Ok(r) = next {
                took(&r);
                c.begun(r.transaction_id).await;
                tokio::time::sleep(Duration::from_secs(1)).await;
                m().holds = false;
                m().moves += 1;
                next = match c.end(r.transaction_id, 0, (more == 1).then_some(1)).await {
                    Err(e) => Err(e),
                    Ok(e) if more == 1 => Ok(e.start_response.unwrap()),
                    Ok(_) => c.start(1).await,
                };
            }
            nd::check(matches!(next, Err(410)) || matches!(next, Err(429)), "C15: a cancelled job is not told to shut down");
            while m().asking {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            if next.as_ref().err() == Some(&410) && !m().confirmed {
                nd::check(m().done.iter().all(|&x| x == 1), "C15: a job that was not confirmed as cancelled is refused work");
                nd::cover("served to the end");
            }
        });
        tokio::task::spawn_named("scancel", async move {
            if when > 0 {
                tokio::time::sleep(Duration::from_secs(when)).await;
            }
            let c = Client::new("99");
            for again in [false, true] {
                if again {
                    // 13 never asked for work
                    if nd::choose(2, "ask again") == 0 {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(700)).await;
                }
                let before = m().holds;
                let n0 = m().moves;
                let ids: &[&str] = if again { &["13", "11"] } else { &["11", "13"] };
                m().asking = true;
                let r = c.mark(ids).await;
                m().asking = false;
                if let Ok(j) = r {
                    nd::check(j.contains(&"13".to_string()), "C15: a job without work is not confirmed as cancelled");
                    nd::check(j.iter().all(|x| x == "11" || x == "13"), "C15: a job that nobody asked about is confirmed as cancelled");
                    if j.contains(&"11".to_string()) {
                        nd::cover("confirmed");
                        nd::check(!m().holds, "C15: a job that holds a task is confirmed as cancelled");
                        m().confirmed = true;
                    } else {
                        nd::cover("not confirmed");
                        tokio::time::sleep(Duration::from_millis(1)).await;
                        nd::check(before || m().holds || m().moves != n0, "C15: a job without work is not confirmed as cancelled");
                    }
                }
            }
        });
        tokio::task::spawn_named("job 12", async move {
            let c = Client::new("111");
            loop {
                tokio::time::sleep(Duration::from_millis(1500)).await;
                match c.start(1).await {
                    Ok(r) => {
                        m().done[task_of(&r)] += 1;
                        nd::check(m().done[task_of(&r)] == 1, "C02,C14,C15: a task is handed out twice");
                        let _ = c.end(r.transaction_id, 0, None).await;
                    }
                    Err(429) => {}
                    Err(_) => break,
                }
            }
        });
        sched::budgets(delays as u32, selects as u32, preempt as u32);
    });
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    sched::budgets(0, 0, 0);
    drop(g);
    check_callbacks();
    nd::check(nf == 0 && done.len() == n, "C15,C02: a task is lost when a job is marked as cancelled");
    for i in 0..n {
        nd::check(life(&w().keys[i]) == ("rsf".to_string(), vec![0]), "C15,C04: the log does not have the one result of a task");
    }
    nd::log(1, m().confirmed as u64);
}

/// tasks become ready while only runners of cancelled jobs wait for work; another job, or a shutdown, comes later
#[no_mangle]
pub extern "C" fn h_back(n: u64, marked: u64, delays: u64, selects: u64, preempt: u64) {
    let n = n as usize;
    #[derive(Default)]
    struct B {
        ran: Vec<usize>,
        down: bool,
    }
    static B: Cell0<Option<B>> = Cell0::new(None);
    *B.get() = Some(B { ran: vec![0; n], down: false });
    fn b() -> &'static mut B {
        B.get().as_mut().unwrap()
    }
    // one task comes first
    let mut deps = dag(n);
    for d in deps.iter_mut().skip(1) {
        if !d.contains(&0) {
            d.push(0);
        }
    }
    let mut g = graph(deps, |_| 2);
    // none, while the first task runs, after the others came back, or while job 12 runs one of them
    let down = [0, 700, 2200, 3500][nd::choose(4, "shutdown")];
    provisioner(move || {
        tokio::task::spawn_named("job 12", async move {
            let c = Client::new("12");
            for first in [true, false] {
                loop {
                    let closed = b().down;
                    let r = match c.start(1).await {
                        Ok(r) => r,
                        Err(429) => continue,
                        Err(e) => {
                            nd::check(e == 410 && (b().down || b().ran.iter().all(|&x| x == 1)) || e == 0, "C14,C15: a runner is refused");
                            return;
                        }
                    };
                    nd::check(!closed, "C25: work is handed out after a shutdown");
                    let i = task_of(&r);
                    b().ran[i] += 1;
                    nd::check(b().ran[i] == 1, "C02,C15: a task is handed out twice");
                    nd::check(c.begun(r.transaction_id).await == 200, "C14: an open transaction is refused");
                    tokio::time::sleep(Duration::from_secs(1)).await;
                    nd::check(c.end(r.transaction_id, 0, None).await.is_ok(), "C14,C25: a result is refused");
                    if first {
                        break;
                    }
                }
                if first {
                    tokio::time::sleep(Duration::from_secs(2)).await;
                }
            }
        });
        for k in 0..marked as usize {
            tokio::task::spawn_named("marked", async move {
                let c = Client::new(["11", "13"][k]);
                tokio::time::sleep(Duration::from_millis(100 + 50 * k as u64)).await;
                let r = c.start(1).await;
                nd::check(r.is_err(), "C15: a job that was confirmed as cancelled is given a task");
                nd::check(matches!(r, Err(410) | Err(429) | Err(0)), "C15: a cancelled job is not told to shut down");
            });
        }
        tokio::task::spawn_named("scancel", async move {
            tokio::time::sleep(Duration::from_millis(500)).await;
            let j = Client::new("99").mark(&["11", "13"]).await;
            nd::check(j.map_or(false, |j| j.len() == 2), "C15: a job without work is not confirmed as cancelled");
        });
        tokio::task::spawn_named("observer", async move {
            tokio::time::sleep(Duration::from_millis(2000)).await;
            if n > 1 && !b().down {
                let Some(s) = status().await else {
                    nd::fail("C10: no status while the execution is going on");
                    return;
                };
                let ready = (1..n).filter(|&i| w().deps[i].len() == 1).count();
                let (r, f) = s.queues.values().fold((0, 0), |a, q| (a.0 + q.num_ready as usize, a.1 + q.num_inflight as usize));
                nd::check(r == ready && f == 0, "C10: tasks that came back from a cancelled job are missing in the status");
                nd::check(s.num_unready_tasks as usize == n - 1 - ready, "C10: the status has a wrong number of unready tasks");
                nd::cover("came back");
            }
        });
        if down > 0 {
            tokio::task::spawn_named("admin", async move {
                tokio::time::sleep(Duration::from_millis(down)).await;
                if admin_shutdown(true).await.is_some() {
                    settle_down().await;
                    b().down = true;
                    if let Some(s) = status().await {
                        nd::check(s.queues.values().all(|q| q.num_ready == 0), "C10,C25: tasks are reported as ready after a shutdown");
                    }
                }
            });
        }
        sched::budgets(delays as u32, selects as u32, preempt as u32);
    });
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    sched::budgets(0, 0, 0);
    drop(g);
    check_callbacks();
    let ran = b().ran.iter().sum::<usize>();
    nd::check(nf == 0 && done.len() == ran, "C02,C15: the finished tasks are not those that ran");
    nd::check(down > 0 || ran == n, "C02,C15: a task is lost when a job is marked as cancelled");
    for i in 0..n {
        let l = life(&w().keys[i]);
        nd::check(if b().ran[i] == 1 { l == ("rsf".to_string(), vec![0]) } else { l.0.len() < 2 && l.1.is_empty() }, "C04,C15: the log does not have the one result of a task");
    }
    nd::log(1, ran as u64);
}

pub async fn admin_shutdown(soft: bool) -> Option<StatusReply> {
    let r = json(ADMIN, Method::POST, "/shutdown", Some(&ShutdownRequest { soft, username: "adm".into() })).await?;
    nd::check(r.0 == StatusCode::OK, "C25: a shutdown request is refused");
    Some(serde_json::from_slice(&r.2).unwrap())
}
/// an administrator shuts down, softly or hard, at any moment
#[no_mangle]
pub extern "C" fn h_down(n: u64, runners: u64, hard: u64, quiet: u64, delays: u64, selects: u64, preempt: u64) {
    let n = n as usize;
    #[derive(Default)]
    struct D {
        asked: bool,
        down: bool,
        given: Vec<u32>,
        begun: Vec<bool>,
        result: Vec<Option<i32>>,
        over: u32,
    }
    static D: Cell0<Option<D>> = Cell0::new(None);
    *D.get() = Some(D { given: vec![0; n], begun: vec![false; n], result: vec![None; n], ..D::default() });
    fn d() -> &'static mut D {
        D.get().as_mut().unwrap()
    }
    let hard = hard == 1;
    let mut g = graph(dag(n), |i| if i % 2 == 1 { 6 } else { 2 });
    // before anyone asks, while tasks run, at the moment of a result, later
    let when = [0, 500, 1500, 2000, 3000][nd::choose(5, "when")];
    provisioner(move || {
        for k in 0..runners as usize {
            tokio::task::spawn_named("runner", async move {
                let c = Client::new(["11", "12"][k]);
                tokio::time::sleep(Duration::from_secs(1)).await;
                loop {
                    let down = d().down;
                    match c.start(1).await {
                        Ok(r) => {
                            nd::check(!down, "C25: work is handed out after a shutdown");
                            let i = task_of(&r);
                            d().given[i] += 1;
                            nd::check(d().given[i] == 1, "C02,C25: a task is handed out twice");
                            // a runner that was given a task need not have said yet that it began
                            if quiet == 0 || nd::choose(2, "says that it began") == 1 {
                                d().begun[i] = true;
                                let b = c.begun(r.transaction_id).await;
                                nd::check(b == 200 || hard && d().asked, "C25: a running task is cut off by a soft shutdown");
                            }
                            tokio::time::sleep(Duration::from_secs(1)).await;
                            let st = nd::choose(2, "status") as i32;
                            match c.end(r.transaction_id, st, None).await {
                                Ok(_) => d().result[i] = Some(st),
                                Err(_) => nd::check(hard && d().asked, "C25: a running task is cut off by a soft shutdown"),
                            }
                        }
                        Err(429) => {}
                        Err(e) => {
                            nd::check(e == 410 || e == 0, "C25: a runner is refused");
                            break;
                        }
                    }
                }
                d().over += 1;
            });
        }
        tokio::task::spawn_named("admin", async move {
            tokio::time::sleep(Duration::from_millis(when)).await;
            d().asked = true;
            if admin_shutdown(!hard).await.is_some() {
                settle_down().await;
                d().down = true;
                nd::cover("shut down");
                if let Some(s) = status().await {
                    nd::check(s.queues.values().all(|q| q.num_ready == 0), "C10,C25: tasks are reported as ready after a shutdown");
                    let open = (0..n).filter(|&i| d().given[i] == 1 && d().result[i].is_none()).count();
                    nd::check(hard || s.queues.values().map(|q| q.num_inflight as usize).sum::<usize>() == open, "C10,C25: a wrong number of tasks is reported as running after a shutdown");
                    nd::cover("still running");
                }
            }
        });
        sched::budgets(delays as u32, selects as u32, preempt as u32);
    });
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    sched::budgets(0, 0, 0);
    drop(g);
    check_callbacks();
    let mut bad = 0;
    let mut fin = 0;
    for i in 0..n {
        let (l, s) = life(&w().keys[i]);
        match d().result[i] {
            Some(r) => {
                fin += 1;
                bad += (r != 0) as usize;
                nd::check(l == "rsf" && s == vec![r], "C25,C04: the result of a task that finished around a shutdown is not in the log");
            }
            None if d().begun[i] => {
                // hard: cut off
                bad += 1;
                fin += 1;
                nd::check(hard, "C25: a running task is cut off by a soft shutdown");
                nd::check(l == "rsf" && s.len() == 1, "C25,C05: a task that was running at a hard shutdown has no final entry");
                nd::cover("cut off");
            }
            None => {
                nd::check(l.is_empty() || l == "r" || hard && d().given[i] == 1, "C25: a task that was never handed out has started");
                if l == "rsf" {
                    bad += 1;
                    fin += 1;
                }
            }
        }
    }
    nd::check(hard || nf as usize == bad, "C25,C02: the number of failures is wrong");
    nd::check(hard || done.len() == fin, "C25,C02: the finished tasks are not those that ran");
    nd::log(1, fin as u64);
}

/// the failure limit with remote runners: quick failures, young and old tasks at the moment it is reached
#[no_mangle]
pub extern "C" fn h_fizz(n: u64, runners: u64, k: u64, durations: u64, delays: u64, selects: u64, preempt: u64) {
    let n = n as usize;
    #[derive(Clone, Default)]
    struct X {
        t0: Option<u64>,
        t1: u64,
        dur: u64,
        status: i32,
        taken: Option<bool>,
    }
    static XS: Cell0<Vec<X>> = Cell0::new(vec![]);
    *XS.get() = vec![X::default(); n];
    let mut g = graph(dag(n), |_| 2);
    let ticks = 200 * MS;
    provisioner(move || {
        for j in 0..runners as usize {
            tokio::task::spawn_named("runner", async move {
                let c = Client::new(["11", "12", "13"][j]);
                loop {
                    match c.start(1).await {
                        Ok(r) => {
                            let x = &mut XS.get()[task_of(&r)];
                            nd::check(x.t0.is_none(), "C02: a task is handed out twice");
                            x.t0 = Some(env::now_ns());
                            // the second one ends at the moment of a ping timer tick
                            x.dur = [SEC, 8 * 136_722_656, 7 * SEC][if durations == 2 { 2 * nd::choose(2, "duration") } else { nd::choose(3, "duration") }];
                            x.t1 = x.t0.unwrap() + x.dur;
                            x.status = nd::choose(2, "status") as i32;
                            c.begun(r.transaction_id).await;
                            tokio::time::sleep(Duration::from_nanos(x.dur)).await;
                            x.taken = Some(c.end(r.transaction_id, x.status, None).await.is_ok());
                        }
                        Err(429) => {}
                        Err(e) => {
                            nd::check(e == 410 || e == 0, "C03: a runner is refused");
                            break;
                        }
                    }
                }
            });
        }
        tokio::task::spawn_named("observer", async move {
            loop {
                tokio::time::sleep(Duration::from_millis(400)).await;
                let fizz = XS.get().iter().filter(|x| x.taken == Some(true) && x.status != 0 && x.dur < 5 * SEC).count();
                let Some(s) = status().await else { break };
                if fizz as u64 >= k {
                    nd::check(s.queues.values().all(|q| q.num_ready == 0), "C10,C03: tasks are reported as ready after the failure limit");
                    nd::cover("status after the limit");
                }
            }
        });
        tokio::task::spawn_named("budgets", async move {
            if durations == 3 {
                tokio::time::sleep(Duration::from_millis(1050)).await;
            }
            sched::budgets(delays as u32, selects as u32, preempt as u32);
        });
    });
    let Some((nf, done)) = execute(&mut g, 0, k as u32, 0) else { return };
    sched::budgets(0, 0, 0);
    drop(g);
    check_callbacks();
    let log = read_log();
    let pos = |key: &str| w().keys.iter().position(|t| t == key).unwrap();
    let (mut fizz, mut stop) = (0, None);
    for (p, e) in log.iter().enumerate() {
        if let LogEntry::Finished(f) = e {
            let x = &XS.get()[pos(&f.key)];
            if f.status > 0 && x.dur < 5 * SEC {
                fizz += 1;
                if fizz == k && stop.is_none() {
                    stop = Some((p, x.t1));
                }
            }
        }
    }
    let mut fin = 0;
    for (i, x) in XS.get().iter().enumerate() {
        let (l, s) = life(&w().keys[i]);
        if x.t0.is_none() {
            nd::check(l.is_empty() || l == "r" && stop.is_some(), "C03,C04: a task that was never handed out is in the log as started");
            let can = w().deps[i].iter().all(|&d| XS.get()[d].taken == Some(true) && XS.get()[d].status == 0);
            nd::check(!can || stop.is_some(), "C03,C02: below the limit a task is left out");
            continue;
        }
        fin += 1;
        nd::check(l == "rsf", "C04: a task that was handed out has no complete life in the log");
        if l != "rsf" {
            return;
        }
        let young = stop.map(|(_, t)| x.t1 > t && t < x.t0.unwrap() + 5 * SEC).unwrap_or(false);
        if x.taken == Some(true) {
            nd::check(s[0] == x.status, "C03,C04,C14: the result of a remote task is not in the log");
            nd::check(!young || x.t1 < stop.unwrap().1 + ticks, "C03: a young remote task is not cancelled when the limit is reached");
        } else {
            nd::cover("cancelled");
            nd::check(s[0] < 0, "C03,C04: a cancelled remote task has a result in the log");
            nd::check(young || x.t1 == stop.map(|(_, t)| t).unwrap_or(0), "C03: an old remote task is cut off when the limit is reached");
        }
        if let Some((_, t)) = stop {
            nd::cover("limit reached");
            nd::check(x.t0.unwrap() <= t + 2 * MS, "C03: a task is handed out after the limit was reached");
            if x.t1 > t && x.taken == Some(true) {
                nd::cover("old task finished");
            }
        }
    }
    match stop {
        Some((p, _)) => nd::check(!log[p..].iter().any(|e| matches!(e, LogEntry::Ready(_))), "C03: a task becomes ready after the limit was reached"),
        None => nd::cover("limit not reached"),
    }
    nd::check(done.len() == fin, "C03,C02: the finished tasks are not those that ran");
    nd::log(1, nf as u64);
}

/// a request that does not carry the workflow's token
#[no_mangle]
pub extern "C" fn h_auth(variant: u64, width: u64) {
    #[derive(Default)]
    struct A {
        hits: u32,
    }
    static A: Cell0<A> = Cell0::new(A { hits: 0 });
    let ep = nd::choose(6, "endpoint");
    let mut g = graph(vec![vec![], vec![]], |_| 2);
    provisioner(move || {
        tokio::task::spawn_named("clients", async move {
            let c = Client::new("11");
            let r = c.start(1).await.ok().unwrap();
            let real = w().token.clone();
            tokio::time::sleep(Duration::from_secs(20)).await;
            let auth: Option<Vec<u8>> = match variant {
                0 => None,
                // other bytes in the place of some of the token's
                1 => {
                    let mut t = real.clone().into_bytes();
                    let at = nd::choose(t.len() / width as usize, "where") * width as usize;
                    let mut same = true;
                    for b in &mut t[at..at + width as usize] {
                        let x = nd::u8("byte");
                        nd::assume(x > 0x20 && x < 0x7f);
                        same &= x == *b;
                        *b = x;
                    }
                    nd::assume(!same);
                    Some([b"Bearer ".to_vec(), t].concat())
                }
                // a part of it, or more
                2 => {
                    let mut t = real.clone().into_bytes();
                    let k = nd::choose(t.len() + 1, "length");
                    if k == t.len() {
                        let x = nd::u8("byte");
                        nd::assume(x > 0x20 && x < 0x7f);
                        t.push(x);
                    } else {
                        t.truncate(k);
                    }
                    Some([b"Bearer ".to_vec(), t].concat())
                }
                _ => Some(match nd::choose(6, "form") {
                    0 => vec![],
                    1 => real.clone().into_bytes(),
                    2 => format!("Basic {real}").into_bytes(),
                    3 => b"Bearer".to_vec(),
                    4 => format!("Bearer{real}").into_bytes(),
                    _ => {
                        let mut v = format!("Bearer {real}").into_bytes();
                        let n = v.len();
                        v[n - 1] = 0x80 | nd::below(128, "byte") as u8;
                        v
                    }
                }),
            };
            let job = ["11", "13"][nd::choose(2, "job")];
            let go = |m: Method, path: &str| {
                let mut q = Client { job: Some(job.into()), auth: None }.rq(m, path);
                if let Some(a) = &auth {
                    if let Ok(v) = hyper::header::HeaderValue::from_bytes(a) {
                        q = q.header(hyper::header::AUTHORIZATION, v);
                    }
                }
                q
            };
            let sr = || StartRequest { runnertypeid: 1, disconnect_error_message: "gone".into() };
            // nor may one learn which transactions are open
            let t = if (1..5).contains(&ep) && nd::choose(2, "unknown transaction") == 1 { r.transaction_id ^ 1 } else { r.transaction_id };
            let rq = match ep {
                0 => go(Method::GET, "/start").postcard(&sr()),
                1 => go(Method::POST, "/begun").postcard(&BegunRequest { transaction_id: t, host: "evil".into(), pid: 1 }),
                2 => go(Method::POST, "/ping").postcard(&Ping { transaction_id: t }),
                3 | 4 => go(Method::POST, "/end").postcard(&EndRequest { transaction_id: t, status: 0, stdout: "".into(), stderr: "".into(), values: vec![], start_request: (ep == 4).then(sr) }),
                _ => {
                    let b = MarkSlurmJobCancelationRequest { jobids: vec!["12".into()] };
                    Ok(go(Method::POST, "/mark-slurm-job-cancelation")
                        .header(hyper::header::CONTENT_TYPE, hyper::header::HeaderValue::from_static("application/json"))
                        .body(serde_json::to_vec(&b).unwrap()))
                }
            };
            let re = reqwest::deliver(rq.unwrap().into_wire()).await.unwrap();
            nd::check(re.0 == StatusCode::UNAUTHORIZED || re.0 == StatusCode::BAD_REQUEST, "C13: a request without the workflow's token is not rejected");
            nd::check(!re.2.windows(3).any(|x| x == b"run"), "C13: a rejected request is told about a task");
            A.get().hits += 1;
            let t = r.transaction_id;
            settle_down().await;
            let s = status().await.unwrap();
            nd::check(s.queues[&2].num_ready == 1 && s.queues[&2].num_inflight == 1, "C13: a rejected request changes the state of a task");
            if ep == 2 {
                // it must not count as a sign of life
                tokio::time::sleep(Duration::from_millis(15_300)).await;
                let s = status().await.unwrap();
                nd::check(s.queues[&2].num_inflight == 0, "C13,C12: a rejected ping keeps a task alive");
                nd::check(c.end(t, 0, None).await.err() == Some(404), "C12: a runner that was given up can still report");
                nd::cover("not prolonged");
            } else {
                nd::check(c.begun(t).await == 200, "C13: a rejected request changes the state of a task");
                nd::check(c.end(t, 0, None).await.is_ok(), "C13: a rejected request changes the state of a task");
                nd::cover("unchanged");
            }
            // the other task; job 12 has not been marked
            let c = Client::new("12");
            match c.start(1).await {
                Ok(r) => nd::check(c.begun(r.transaction_id).await == 200 && c.end(r.transaction_id, 0, None).await.is_ok(), "C13: a rejected request changes the state of a task"),
                Err(_) => nd::fail("C13: a rejected request has an effect on a job"),
            }
        });
    });
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    drop(g);
    check_callbacks();
    nd::check(A.get().hits == 1 && done.len() == 2 && nf == (ep == 2) as u32, "C13: a rejected request changes the result");
    for e in read_log() {
        if let LogEntry::Started(s) = e {
            nd::check(s.host != "evil", "C13: a rejected request is in the log");
        }
    }
}

/// n runners of which each pings with its own gaps, and may fall silent
#[no_mangle]
pub extern "C" fn h_ping(n: u64, pings: u64, again: u64) {
    let n = n as usize;
    #[derive(Clone, Default)]
    struct P {
        task: usize,
        /// when it was given up at the latest and earliest, if it was
        gone: Option<u64>,
        /// when the server heard of it last
        heard: u64,
        accepted: Option<bool>,
    }
    static P: Cell0<Vec<P>> = Cell0::new(vec![]);
    *P.get() = vec![P::default(); n];
    let mut g = graph(vec![vec![]; n], |_| 2);
    // within the time-out by more than two ticks of the timer, and beyond it by as much
    const GAP: [u64; 4] = [15_000, 34_700, 35_400, 71_000];
    provisioner(move || {
        for k in 0..n {
            tokio::task::spawn_named("runner", async move {
                tokio::time::sleep(Duration::from_millis(k as u64 * 77)).await;
                let c = Client::new(["11", "12", "13"][k]);
                let r = c.start(1).await.ok().unwrap();
                let p = &mut P.get()[k];
                p.task = task_of(&r);
                p.heard = env::now_ns();
                if nd::choose(2, "begins") == 1 {
                    c.begun(r.transaction_id).await;
                }
                // from 100 on: a long task that pings regularly (pings - 100) times
                let long = pings >= 100;
                let m = if long { pings as usize - 100 } else { nd::choose(pings as usize + 1, "pings") };
                for i in 0..=m {
                    let gap = if long && i < m { 15_000 + k as u64 * 4_500 } else { GAP[nd::choose(GAP.len(), "gap")] };
                    tokio::time::sleep(Duration::from_millis(gap)).await;
                    if gap > 35_000 && p.gone.is_none() {
                        p.gone = Some(env::now_ns());
                    }
                    if i < m {
                        if w().ended[p.task].is_none() {
                            p.heard = env::now_ns();
                        }
                        let s = c.ping(r.transaction_id).await;
                        nd::check(s == 200 || s == 0 && p.gone.is_some(), "C12: a ping is refused");
                    }
                }
                let e = c.end(r.transaction_id, 0, None).await;
                p.accepted = Some(e.is_ok());
                match p.gone {
                    None => {
                        nd::check(e.is_ok(), "C12: a runner that pings within the time-out loses its task");
                        nd::cover("in time");
                        if again == 1 {
                            // pings of a finished transaction
                            let s = c.ping(r.transaction_id).await;
                            nd::check(s == 200 || s == 0, "C12: a ping is refused");
                        }
                    }
                    Some(_) => {
                        nd::check(e.is_err(), "C12: the result of a runner that was given up is taken");
                        nd::cover("given up");
                    }
                }
            });
        }
    });
    let t0 = env::now_ns();
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    drop(g);
    check_callbacks();
    let mut lost = 0;
    for p in P.get().iter() {
        let (l, s) = life(&w().keys[p.task]);
        nd::check(l == "rsf", "C04,C12: a task that was handed out has no complete life in the log");
        if l != "rsf" {
            return;
        }
        match p.accepted {
            Some(true) => nd::check(s[0] == 0, "C12: a completed task is recorded as timed out"),
            _ => {
                lost += 1;
                nd::check(s[0] < 0, "C12: a runner that was given up is not recorded as such");
                // two ticks are 273.4 ms
                let quiet = w().ended[p.task].unwrap_or(0).saturating_sub(p.heard) / 1_000_000;
                nd::check(quiet >= 34_700, "C12: a runner that pings within the time-out is given up");
                nd::check(quiet <= 35_300, "C12: a runner that stopped pinging is given up too late");
            }
        }
    }
    nd::check(nf == lost && done.len() == n, "C12,C02: the number of failures is wrong");
    nd::log(1, (env::now_ns() - t0) / SEC);
    nd::log(2, lost as u64);
}

/// one long poll of the status, against work that comes up at known times
#[no_mangle]
pub extern "C" fn h_poll(exact: u64) {
    static N: Cell0<u32> = Cell0::new(0);
    // 0 -> 1 -> 2: work comes up at 0, 2 and 3 s
    let mut g = graph(vec![vec![], vec![0], vec![1]], |_| 2);
    provisioner(move || {
        tokio::task::spawn_named("runner", async move {
            let c = Client::new("11");
            for wait in [2, 1, 9] {
                let r = c.start(1).await.ok().unwrap();
                tokio::time::sleep(Duration::from_secs(wait)).await;
                c.end(r.transaction_id, 0, None).await.ok().unwrap();
            }
        });
        tokio::task::spawn_named("poller", async move {
            tokio::time::sleep(Duration::from_millis([500, 1900, 2500][nd::choose(3, "when")])).await;
            let e0 = status().await.unwrap().etag;
            let etag = e0.wrapping_add(nd::choose(4, "etag") as u64).wrapping_sub(1);
            let vals: &[u64] = if exact == 1 { &[0, 1, 499, 500, 1500, 2100] } else { &[0, 500, 2100] };
            let timemin_ms = vals[nd::choose(vals.len(), "timemin")];
            let timeout_ms = vals[nd::choose(vals.len(), "timeout")];
            let t0 = env::now_ns();
            let rq = StatusRequest { etag, timemin_ms, timeout_ms };
            let r = json(PORT, Method::GET, "/status", Some(&rq)).await.unwrap();
            let s: StatusReply = serde_json::from_slice(&r.2).unwrap();
            let t1 = env::now_ns();
            // when the counter goes above the tag
            let up = [0, 2 * SEC, 3 * SEC];
            let start = env::now_ns() - (t1 - t0) - base();
            let now_cnt = up.iter().filter(|&&u| u <= start).count() as u64;
            nd::check(e0 == now_cnt, "C10: the tag does not count the additions of work");
            let over = (0..3).filter(|&i| i as u64 + 1 > etag).map(|i| up[i].saturating_sub(start)).min().unwrap_or(u64::MAX);
            let want = (timeout_ms * MS).min(over).max(timemin_ms * MS);
            // the runtime's timers have a resolution of one millisecond
            nd::check(t1 - t0 >= timemin_ms * MS, "C10: a long poll returns before its minimum time");
            nd::check(t1 - t0 <= want + 2 * MS, "C10: a long poll returns too late");
            nd::check(t1 - t0 + 2 * MS >= want, "C10: a long poll returns although nothing was added");
            let end = start + (t1 - t0);
            // an addition at that very moment may be seen or not
            let cnt = s.etag;
            let some = |slack: i64| up.iter().filter(|&&u| u as i64 <= end as i64 + slack).count() as u64;
            nd::check(some(-2 * MS as i64) <= cnt && cnt <= some(2 * MS as i64), "C10: the tag of a long poll's reply is not the present one");
            let rest = some(-2 * MS as i64) == some(2 * MS as i64);
            nd::check(!rest || s.queues[&2].num_inflight == 1 && s.queues[&2].num_ready == 0 && s.num_unready_tasks as u64 == 3 - cnt, "C10: a long poll's reply is not the present state");
            if want == over && over > 0 {
                nd::cover("woken");
            } else if want == timeout_ms * MS && want > 0 {
                nd::cover("timed out");
            } else if want > 0 {
                nd::cover("held back");
            } else {
                nd::cover("at once");
            }
            *N.get() += 1;
        });
    });
    *BASE.get() = env::now_ns();
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, 0) else { return };
    drop(g);
    check_callbacks();
    nd::check(nf == 0 && done.len() == 3 && *N.get() == 1, "C10: a long poll is lost");
}
static BASE: Cell0<u64> = Cell0::new(0);
fn base() -> u64 {
    *BASE.get()
}

/// the launch rate and the provisioner information are changed by an administrator
#[no_mangle]
pub extern "C" fn h_admin(n: u64, changes: u64) {
    let n = n as usize;
    #[derive(Default)]
    struct S {
        out: Vec<u64>,
        rates: Vec<(u64, u32)>,
        seen: u32,
    }
    static S: Cell0<Option<S>> = Cell0::new(None);
    *S.get() = Some(S::default());
    fn s() -> &'static mut S {
        S.get().as_mut().unwrap()
    }
    // 0: no limit
    const RATES: [u32; 4] = [1, 2, 1000, 0];
    let first = RATES[nd::choose(4, "rate")];
    let mut g = graph(vec![vec![]; n], |_| 2);
    provisioner(move || {
        s().rates.push((env::now_ns(), first));
        for k in 0..2 {
            tokio::task::spawn_named("runner", async move {
                let c = Client::new(["11", "12"][k]);
                loop {
                    match c.start(1).await {
                        Ok(r) => {
                            s().out.push(env::now_ns());
                            c.end(r.transaction_id, 0, None).await.ok();
                        }
                        Err(429) => {}
                        Err(_) => break,
                    }
                }
            });
        }
        tokio::task::spawn_named("admin", async move {
            let mut info: Option<String> = None;
            let mut rate = first;
            for _ in 0..changes {
                tokio::time::sleep(Duration::from_millis([0, 700][nd::choose(2, "when")])).await;
                let r = if nd::choose(2, "what") == 0 {
                    rate = RATES[nd::choose(4, "rate")];
                    s().rates.push((env::now_ns(), rate));
                    json(ADMIN, Method::POST, "/ratelimit", Some(&UpdateRatelimitRequest { per_second: rate })).await
                } else {
                    info = [None, Some("x".to_string()), Some("".to_string())][nd::choose(3, "info")].clone();
                    json(ADMIN, Method::POST, "/provisioner_info", Some(&UpdateRemoteProvisionerInfoRequest { provisioner_info: info.clone() })).await
                };
                let Some(r) = r else { return };
                nd::check(r.0 == StatusCode::OK, "C25: an administrator's request is refused");
                let a: StatusReply = serde_json::from_slice(&r.2).unwrap();
                nd::check(a.ratelimit == rate && a.provisioner_info == info, "C25: an administrator's request has no effect");
                if let Some(b) = status().await {
                    nd::check(b.ratelimit == rate && b.provisioner_info == info, "C25: the status does not show what an administrator has set");
                    s().seen += 1;
                    nd::cover("changed");
                }
            }
        });
    });
    let Some((nf, done)) = execute(&mut g, 0, u32::MAX, first) else { return };
    drop(g);
    check_callbacks();
    nd::check(nf == 0 && done.len() == n, "C25,C11,C02: a task is lost");
    let s = s();
    // within each stretch of one rate: k launches take (k - 1) / rate seconds, but for one second of burst
    for (i, &(from, rate)) in s.rates.iter().enumerate() {
        let to = s.rates.get(i + 1).map(|r| r.0).unwrap_or(u64::MAX);
        let o: Vec<u64> = s.out.iter().copied().filter(|&t| t > from && t < to).collect();
        for a in 0..o.len() {
            for b in a..o.len() {
                nd::check(rate == 0 || (b - a + 1) as u64 * (SEC / rate as u64) <= o[b] - o[a] + SEC, "C25,C11: more tasks are handed out than the rate allows");
            }
        }
        // and it does not starve: the next one is due within an interval
        for ab in o.windows(2) {
            nd::check(ab[1] - ab[0] <= SEC.checked_div(rate as u64).unwrap_or(0) + 2 * MS, "C25,C11: tasks are held back longer than the rate demands");
            nd::cover("paced");
        }
    }
    nd::log(1, s.out.len() as u64);
}
