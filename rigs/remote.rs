// The remote runner: what it runs, what it tells the controller, whom it signals and when it ends.
//@inject src/bin/execgraph-remote.rs
/// false: it ends with an error
pub fn run() -> bool {
    super::main().is_ok()
}
//@main
use crate::http_extensions::axum::Postcard;
use crate::httpinterface::*;
use axum::extract::FromRequest;
use axum::response::IntoResponse;
use hyper::{Body, HeaderMap, StatusCode};
use nd::env::{self, Cell0};
use reqwest::Wire;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashMap;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::process::{proc_of, procs, PID0};
use tokio::sched;

const SEC: u64 = 1_000_000_000;
const TOKEN: &str = "sesame";
const PING: u64 = 15;
const SLURM: &str = "slurmstepd: error: *** JOB 7 ON n1 CANCELLED AT 12:00 ***\n";
static ARGS: Cell0<Vec<String>> = Cell0::new(Vec::new());
pub fn args() -> Vec<String> {
    ARGS.get().clone()
}
/// seconds since the runner was started
fn now() -> u64 {
    env::now_ns() - env::T0
}
fn at(s: u64) -> u64 {
    s * SEC
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// the connection breaks, the request arrives or not
    Broken(bool),
    Error500,
    Hang,
    Late(u64),
    Garbage,
}
#[derive(Default, Clone)]
struct Job {
    given: Option<u64>,
    launched: Option<u64>,
    unstartable: bool,
    pid: u32,
    begun: Option<u64>,
    /// a report of the beginning was refused or lost
    begun_failed: bool,
    done: Option<u64>,
    raw: i32,
    ended: Option<u64>,
    out: String,
    err: String,
    val: String,
    input: Option<(i32, Vec<u8>)>,
    ignores: bool,
    grandchild: Option<u32>,
}
#[derive(Default)]
struct World {
    jobs: Vec<Job>,
    /// tasks the controller has given out
    given: usize,
    total: usize,
    faults: usize,
    started: bool,
    silent: bool,
    /// no pong for two intervals
    gap: bool,
    accept_for: Option<u64>,
    duration: Option<u64>,
    usr1: Option<u64>,
    /// a signal is just being delivered
    unclear: bool,
    slurm: Option<u64>,
    gasp: bool,
    last_ok: u64,
    kinds: usize,
    no_more: bool,
    /// how long an answer was kept back
    late: u64,
    failed_at: Option<u64>,
}
static W: Cell0<Option<World>> = Cell0::new(None);
fn w() -> &'static mut World {
    W.get().get_or_insert_with(World::default)
}
/// the transaction of task i
fn trans(i: usize) -> u32 {
    700 + i as u32
}

async fn decode<T: DeserializeOwned>(w: Wire) -> Option<T> {
    let mut b = hyper::Request::builder().method(w.method).uri(w.path);
    *b.headers_mut().unwrap() = w.headers;
    match Postcard::<T>::from_request(b.body(Body::from(w.body)).unwrap(), &()).await {
        Ok(Postcard(t)) => Some(t),
        Err(_) => {
            nd::fail("the controller does not understand a request");
            None
        }
    }
}
async fn encode<T: Serialize>(t: T) -> Option<(StatusCode, HeaderMap, Vec<u8>)> {
    let (p, b) = Postcard(t).into_response().into_parts();
    Some((p.status, p.headers, hyper::body::to_bytes(b).await.unwrap().to_vec()))
}
/// the true results of what has exited
fn settle() {
    for j in w().jobs.iter_mut().filter(|j| j.launched.is_some() && !j.unstartable && j.done.is_none()) {
        if let Some(r) = procs()[(j.pid - PID0) as usize].status {
            j.raw = r;
            j.done = Some(now());
        }
    }
}
/// the next task, as long as there is one
fn next() -> Option<StartResponse> {
    let s = w();
    if s.given == s.total {
        return None;
    }
    let i = s.given;
    s.given += 1;
    s.jobs[i].given = Some(now());
    Some(StartResponse {
        transaction_id: trans(i),
        cmdline: vec!["/bin/prog".into(), format!("a{}", i).into(), "b c".into()],
        fd_input: s.jobs[i].input.clone(),
        ping_interval_msecs: PING * 1000,
    })
}
fn current() -> Option<usize> {
    w().given.checked_sub(1)
}
/// whether the runner may ask for more work now
fn may_accept() -> bool {
    w().usr1.is_none() && w().accept_for.map_or(true, |m| now() < at(m))
}
/// the body of what the controller answers to a request it got
async fn answer(wire: Wire, sent: (bool, bool)) -> Option<(StatusCode, HeaderMap, Vec<u8>)> {
    nd::check(
        wire.headers.get("authorization").map(|v| v.as_bytes()) == Some(format!("Bearer {TOKEN}").as_bytes()),
        "a request does not carry the token",
    );
    match wire.path.as_str() {
        "/start" => {
            let r: StartRequest = decode(wire).await?;
            nd::check(!w().started, "work is asked for a second time");
            nd::check(r.runnertypeid == 5 && r.disconnect_error_message == "lost it", "the runner introduces itself wrongly");
            w().started = true;
            encode(next()?).await
        }
        "/ping" => {
            let _: Ping = decode(wire).await?;
            encode(()).await
        }
        "/begun" => {
            let r: BegunRequest = decode(wire).await?;
            let Some(i) = current().filter(|&i| trans(i) == r.transaction_id) else {
                nd::fail("the beginning of another task is reported");
                return None;
            };
            let j = &mut w().jobs[i];
            nd::check(j.begun.is_none(), "the beginning of a task is reported twice");
            nd::check(j.launched.is_some(), "the beginning of a task is reported before it");
            nd::check(r.pid == if j.unstartable { 0 } else { j.pid }, "the reported pid is not the task's");
            nd::check(!r.host.is_empty(), "the host is not reported");
            j.begun = Some(now());
            encode(()).await
        }
        "/end" => {
            let r: EndRequest = decode(wire).await?;
            settle();
            let Some(i) = current().filter(|&i| trans(i) == r.transaction_id) else {
                nd::fail("the end of another task is reported");
                return None;
            };
            let s = w();
            let j = &mut s.jobs[i];
            nd::check(j.ended.is_none(), "the end of a task is reported twice");
            nd::check(j.begun.is_some(), "the end of a task is reported before its beginning");
            j.ended = Some(now());
            if j.unstartable {
                nd::check(r.status == 13, "a command that cannot be started ends with another status");
                nd::check(r.stdout.is_empty() && r.values.is_empty() && r.stderr.contains("/bin/prog"), "a command that cannot be started has output");
            } else if s.slurm.is_some() && r.status == -15 && r.start_request.is_none() && r.stderr.ends_with(SLURM) {
                nd::check(!s.gasp, "the cancelation is reported twice");
                s.gasp = true;
                nd::check(procs()[(j.pid - PID0) as usize].signals.iter().any(|x| x.0 == 15), "a cancelled task is not signalled");
                return encode(EndResponse { start_response: None }).await;
            } else {
                nd::check(j.done.is_some(), "the end of a task is reported before it");
                let sig = j.raw & 0x7f;
                let want = if sig != 0 { -sig } else { (j.raw >> 8) & 0xff };
                nd::check(r.status == want, "the reported status is not the task's");
                nd::check(r.stdout == j.out, "the reported output is not the task's");
                let limit = r.stderr.strip_suffix(j.err.as_str());
                nd::check(limit.is_some(), "the reported error output is not the task's");
                if let Some(p) = limit {
                    let termed = procs()[(j.pid - PID0) as usize].signals.iter().any(|x| x.0 == 15);
                    nd::check(p.is_empty() || (p.contains("TIME LIMIT") && p.ends_with('\n')), "something else is added to the error output");
                    nd::check(!termed || !p.is_empty(), "a task that was stopped at its time limit is not marked");
                    nd::check(p.is_empty() || deadline().map_or(false, |d| now() >= d), "a task is marked as stopped before the time limit");
                }
                let m: HashMap<String, String> = std::iter::once(("v".to_string(), j.val.clone())).collect();
                nd::check(r.values == if j.val.is_empty() { vec![] } else { vec![m] }, "the reported values are not the task's");
            }
            if sent.1 || w().unclear {
            } else if sent.0 {
                nd::check(r.start_request.is_some(), "no more work is asked for, although it may be");
            } else {
                nd::check(r.start_request.is_none(), "more work is asked for, although it may not be");
                nd::cover("no more work");
            }
            let start_response = match r.start_request {
                Some(q) => {
                    nd::check(q.runnertypeid == 5 && q.disconnect_error_message == "lost it", "the runner introduces itself wrongly");
                    next()
                }
                None => None,
            };
            if start_response.is_none() {
                w().no_more = true;
            }
            encode(EndResponse { start_response }).await
        }
        _ => {
            nd::fail("an unknown request");
            None
        }
    }
}
fn fault() -> Fault {
    let s = w();
    if s.faults == 0 {
        return Fault::None;
    }
    let f = match nd::choose(s.kinds, "fault") {
        0 => return Fault::None,
        1 => Fault::Hang,
        2 => Fault::Broken(false),
        3 => Fault::Error500,
        4 => Fault::Broken(true),
        5 => Fault::Late(10 * SEC),
        6 => Fault::Late(29 * SEC),
        _ => Fault::Garbage,
    };
    s.faults -= 1;
    f
}
fn transport(wire: Wire) -> reqwest::Reply {
    Box::pin(async move {
        nd::check(!w().gasp, "a request after the last one");
        if w().silent {
            std::future::pending::<()>().await;
        }
        let path = wire.path.clone();
        if path == "/ping" {
            let copy = Wire { method: wire.method.clone(), path: path.clone(), port: wire.port, headers: wire.headers.clone(), body: wire.body.clone() };
            if let Some(r) = decode::<Ping>(copy).await {
                // at the moment a task ends, the last ping for it may cross the answer
                let c = current();
                let old = c.map_or(false, |c| c > 0 && trans(c - 1) == r.transaction_id && w().jobs[c].given == Some(now()));
                nd::check(old || c.map(trans) == Some(r.transaction_id), "a ping is for another task");
            }
        }
        let sender = current();
        let sent = (may_accept(), w().unclear);
        let f = fault();
        if f != Fault::None {
            nd::cover(match f {
                Fault::Hang => "no answer",
                Fault::Broken(_) => "broken connection",
                Fault::Error500 => "error",
                Fault::Late(_) => "late answer",
                _ => "nonsense",
            });
        }
        let fail = || {
            if w().failed_at.is_none() {
                w().failed_at = Some(now());
            }
        };
        match f {
            Fault::None => {
                let r = answer(wire, sent).await;
                if path == "/ping" && current() == sender {
                    ok();
                }
                if path == "/start" && r.is_none() {
                    return Some((StatusCode::TOO_MANY_REQUESTS, HeaderMap::new(), vec![]));
                }
                if let Some((StatusCode::OK, _, _)) = r {
                    if path == "/start" || path == "/end" {
                        ok();
                    }
                }
                r
            }
            Fault::Broken(arrives) => {
                if arrives {
                    answer(wire, sent).await;
                }
                fail();
                None
            }
            Fault::Error500 => {
                fail();
                let code = [StatusCode::INTERNAL_SERVER_ERROR, StatusCode::NOT_FOUND, StatusCode::UNAUTHORIZED][nd::choose(3, "error")];
                Some((code, HeaderMap::new(), vec![]))
            }
            Fault::Hang => {
                // from now on it is silent
                w().silent = true;
                std::future::pending().await
            }
            Fault::Late(t) => {
                w().late += t;
                tokio::time::sleep(Duration::from_nanos(t)).await;
                let r = answer(wire, sent).await;
                if path != "/begun" && (path != "/ping" || current() == sender) {
                    ok();
                }
                r
            }
            Fault::Garbage => {
                let r = answer(wire, sent).await;
                if path == "/start" || path == "/end" {
                    fail();
                } else if path == "/ping" && current() == sender {
                    ok();
                }
                r.map(|(s, h, _)| (s, h, vec![0xff; 3]))
            }
        }
    })
}
/// the runner hears from the controller
fn ok() {
    if now() - w().last_ok >= at(2 * PING) {
        w().gap = true;
    }
    w().last_ok = now();
}
/// when tasks are told to stop
fn deadline() -> Option<u64> {
    w().duration.map(|d| at(if d > 120 { d - 60 } else { d }))
}
async fn put<P: AsyncWriteExt + Unpin>(p: &mut Option<P>, s: &str) {
    if let Some(p) = p {
        let _ = p.write_all(s.as_bytes()).await;
    }
}
fn launch(mut rq: tokio::process::Request, durations: &'static [u64], opts: u64) -> std::io::Result<tokio::process::Body> {
    let s = w();
    let Some(i) = current() else {
        nd::fail("a command nobody asked for is run");
        return Err(std::io::Error::from_raw_os_error(2));
    };
    let j = &mut s.jobs[i];
    nd::check(j.launched.is_none(), "a command is run twice");
    nd::check(
        rq.program == "/bin/prog" && rq.args.len() == 2 && rq.args[0] == format!("a{}", i).as_str() && rq.args[1] == "b c",
        "another command is run",
    );
    nd::check(procs().iter().enumerate().all(|(k, p)| k as u32 + PID0 == rq.pid || p.parent.is_some() || p.status.is_some()), "two commands run at once");
    nd::check(!env::vars().iter().any(|v| v.0 == "EXECGRAPH_AUTHORIZATION_TOKEN") && !rq.env.iter().any(|v| v.1 == TOKEN), "a command can see the token");
    nd::check(rq.stdin == tokio::process::Stdio::Null, "a command shares the runner's input");
    j.launched = Some(now());
    j.pid = rq.pid;
    if opts & 16 != 0 && nd::choose(2, "unstartable") == 1 {
        j.unstartable = true;
        nd::cover("unstartable");
        return Err(std::io::Error::from_raw_os_error(2));
    }
    let d = durations[nd::choose(durations.len(), "duration")];
    j.ignores = opts & 32 != 0 && nd::choose(2, "ignores SIGTERM") == 1;
    let orphan = opts & 64 != 0 && nd::choose(2, "leaves a process behind") == 1;
    let orphan_ignores = orphan && nd::choose(2, "which ignores SIGTERM") == 1;
    let input = j.input.clone();
    let pid = rq.pid;
    Ok(Box::pin(async move {
        proc_of(pid as i32).unwrap().ignores_term = w().jobs[i].ignores;
        let mut so = rq.stdout.take();
        let mut se = rq.stderr.take();
        let mut s3 = rq.write_fds.remove(&3);
        if let Some((fd, b)) = &input {
            let mut got = vec![];
            match rq.read_fds.remove(fd) {
                Some(mut p) => drop(p.read_to_end(&mut got).await),
                None => nd::fail("a command does not get its input"),
            }
            nd::check(&got == b, "a command gets another input");
        }
        w().jobs[i].out = format!("o{}", i);
        put(&mut so, &format!("o{}", i)).await;
        w().jobs[i].err = format!("e{}\n", i);
        put(&mut se, &format!("e{}\n", i)).await;
        w().jobs[i].val = format!("v{}", i);
        put(&mut s3, &format!("v=v{}\n", i)).await;
        if orphan {
            nd::cover("a process is left behind");
            let hold = nd::choose(2, "holding the pipes") == 1;
            let pipes = if hold { Some((so.take(), se.take(), s3.take())) } else { None };
            let g = tokio::process::fork(pid, Box::pin(async move {
                tokio::time::sleep(Duration::from_secs(40)).await;
                drop(pipes);
                if hold { 0 } else { std::future::pending().await }
            }));
            proc_of(g as i32).unwrap().ignores_term = orphan_ignores;
            w().jobs[i].grandchild = Some(g);
        }
        if d > 0 {
            tokio::time::sleep(Duration::from_secs(d)).await;
        }
        let raw = match nd::choose(3, "outcome") {
            0 => 0,
            1 => (nd::u8("code") as i32) << 8,
            _ => {
                let s = nd::below(64, "signal") as i32;
                nd::assume(s >= 1);
                s
            }
        };
        w().jobs[i].raw = raw;
        w().jobs[i].done = Some(now());
        raw
    }))
}

/// `jobs` tasks, `faults` misbehaviours of the controller out of `kinds`;
/// opts: 1 a limit on asking for work, 2 a limit on the duration, 4 SIGUSR1, 8 a slurm error, 16 commands that cannot be
/// started, 32 tasks that ignore SIGTERM, 64 tasks that leave processes behind, 128 input
#[no_mangle]
pub extern "C" fn h_remote(jobs: u64, faults: u64, kinds: u64, delays: u64, opts: u64) {
    let mut a: Vec<String> = ["execgraph-remote", "http://h:8000/", "5", "--disconnect-err-msg", "lost it"].iter().map(|s| s.to_string()).collect();
    if opts & 128 != 0 {
        *tokio::pipe::CAPACITY.get() = 2;
    }
    let s = w();
    s.total = jobs as usize;
    s.faults = faults as usize;
    s.kinds = 1 + kinds as usize;
    s.jobs = (0..jobs).map(|_| Job::default()).collect();
    if opts & 1 != 0 {
        let m = [0, 20, 100][nd::choose(3, "accepts work for")];
        a.extend(["--max-time-accepting-tasks".to_string(), m.to_string()]);
        s.accept_for = Some(m);
    }
    if opts & 2 != 0 {
        let d = [100, 120, 121, 200][nd::choose(4, "time limit")];
        a.extend(["--duration".to_string(), d.to_string()]);
        s.duration = Some(d);
    }
    if opts & 128 != 0 {
        for j in s.jobs.iter_mut() {
            if nd::choose(2, "input") == 1 {
                j.input = Some((4 + nd::choose(2, "fd") as i32, (0..3).map(|_| nd::u8("input")).collect()));
            }
        }
    }
    env::vars().push(("EXECGRAPH_AUTHORIZATION_TOKEN".into(), TOKEN.into()));
    if opts & 8 != 0 {
        std::fs::create_dir_all("/ndfs").ok();
        std::fs::write("/ndfs/slurm.err", "").unwrap();
        a.extend(["--slurm-error-logfile".to_string(), "/ndfs/slurm.err".to_string()]);
        env::vars().push(("SLURM_JOB_ID".into(), "7".into()));
        let t = [5, 61][nd::choose(2, "slurm error at")];
        tokio::task::spawn_named("slurm", async move {
            tokio::time::sleep(Duration::from_secs(t)).await;
            let half = nd::choose(2, "in two pieces") == 1;
            std::fs::write("/ndfs/slurm.err", if half { &SLURM[..20] } else { SLURM }).unwrap();
            if !half {
                w().slurm = Some(now());
            }
            notify::emit("/ndfs/slurm.err", notify::EventKind::Modify(notify::event::ModifyKind::Any));
            if half {
                tokio::time::sleep(Duration::from_secs(1)).await;
                std::fs::write("/ndfs/slurm.err", SLURM).unwrap();
                w().slurm = Some(now());
                notify::emit("/ndfs/slurm.err", notify::EventKind::Modify(notify::event::ModifyKind::Any));
            }
        });
    }
    if opts & 4 != 0 {
        let t = [0, 5, 61][nd::choose(3, "SIGUSR1 at")];
        tokio::task::spawn_named("usr1", async move {
            tokio::time::sleep(Duration::from_secs(t) + Duration::from_millis(1)).await;
            nd::check(tokio::signal::unix::raise(10), "SIGUSR1 ends the runner");
            w().unclear = true;
            tokio::time::sleep(Duration::from_millis(1)).await;
            w().unclear = false;
            w().usr1 = Some(now());
        });
    }
    *ARGS.get() = a;
    reqwest::set_transport(transport);
    let durations: &'static [u64] = if opts & 2 != 0 { &[0, 130, 300] } else { &[0, 10, 70] };
    tokio::process::set_spawner(move |rq| launch(rq, durations, opts));
    sched::budgets(delays as u32, 0, 0);
    crate::remote::verif_h::run();
    over();
}
/// the runner has ended
fn over() {
    let s = w();
    // each generation of processes gets five seconds to end
    let clean = if s.jobs.iter().any(|j| j.grandchild.is_some()) { at(11) } else { at(6) };
    if now() - s.last_ok >= at(2 * PING) {
        s.gap = true;
    }
    let gave_up = s.silent || s.gap || s.failed_at.is_some() || s.slurm.is_some();
    for (i, p) in procs().iter().enumerate() {
        nd::check(p.status.is_some() || (p.parent.is_some() && !tokio::process::is_ours(i)), "a process outlives the runner");
    }
    for (i, j) in s.jobs.iter().enumerate() {
        if j.launched.is_none() || j.unstartable {
            continue;
        }
        let p = &procs()[(j.pid - PID0) as usize];
        // signals: at the time limit, or because the runner gives up
        let terms: Vec<u64> = p.signals.iter().filter(|x| x.0 == 15).map(|x| x.1 - env::T0).collect();
        let killed = p.signals.iter().any(|x| x.0 == 9);
        // due once the controller knows that the task has begun
        let due = deadline().and_then(|d| j.begun.map(|b| b.max(d)));
        if !gave_up {
            match (due, j.done) {
                (Some(d), Some(t)) if t >= d => {
                    nd::check(terms.len() == 1 || (t == d && terms.is_empty()), "a task is not signalled once at its time limit");
                    nd::check(terms.iter().all(|&t| t == d), "a task is signalled at another time than its limit");
                    nd::cover("time limit");
                }
                // a process it left behind may keep the task going
                (Some(d), Some(t)) if j.grandchild.is_some() => nd::check(terms.iter().all(|&x| x == d) && terms.len() < 2, "a task is signalled without a reason"),
                _ => nd::check(terms.is_empty(), "a task is signalled without a reason"),
            }
        }
        nd::check(gave_up || !killed, "a task is killed without a reason");
        let _ = i;
    }
    if !gave_up {
        // nothing went wrong: every task that was given out was reported, and as many were taken as could be
        nd::check(s.jobs.iter().all(|j| j.given.is_none() || j.ended.is_some()), "a task was not reported");
        nd::check(s.no_more, "the runner ended although there was work");
        if s.usr1.is_none() && s.accept_for.is_none() {
            nd::check(s.given == s.total, "not every task was taken");
        }
        nd::cover("all went well");
    }
    if let Some(t) = s.slurm {
        if s.no_more {
            // it was over before
        } else if !s.silent && !s.gap && s.failed_at.is_none() {
            nd::check(s.gasp, "the cancelation is not reported");
            nd::check(now() <= t + clean + s.late, "the runner goes on after its cancelation");
            nd::cover("cancelled");
        }
    }
    if s.silent {
        // two ping intervals without a pong, and six seconds to clean up
        let gasping = s.slurm.map_or(0, |t| t + at(60) + clean);
        let wait = if s.given == 0 { at(60) } else { at(2 * PING) };
        nd::check(now() <= (s.last_ok + wait + clean).max(gasping), "the runner goes on long after the controller stopped answering");
        nd::cover("given up");
    }
    if let Some(t) = s.failed_at {
        nd::check(now() <= t + clean, "the runner goes on after an error");
    }
    nd::log(1, now());
    nd::log(2, s.given as u64);
}
