// Whole executions: ExecGraph::execute with local runners, where child processes are tasks of the rig.
//@main
use crate::execgraph::{Cmd, ExecGraph};
use crate::logfile2::*;
use bitvec::array::BitArray;
use nd::env::{self, Cell0};
use tokio::process::Request;
use tokio::sched;

pub const SEC: u64 = 1_000_000_000;
pub const LOG: &str = "/ndfs/w.log";

/// what one task does, and what was seen of it
#[derive(Clone, Default)]
pub struct Task {
    pub key: String,
    pub deps: Vec<usize>,
    /// raw wait status it ends with; None: it cannot be started
    pub status: Option<i32>,
    pub secs: u64,
    pub aff: u64,
    // observed
    pub starts: usize,
    pub t0: u64,
    pub t1: Option<u64>,
    pub pre: usize,
    /// calls of the postamble: success, run count, number of tasks
    pub post: Vec<(u32, u32, u64)>,
}
#[derive(Default)]
pub struct W {
    pub tasks: Vec<Task>,
    /// indices of tasks in the order in which they were launched
    pub order: Vec<usize>,
    pub running: [usize; 2],
    pub peak: [usize; 2],
    /// tasks whose results a former session or run provides
    pub had: Vec<bool>,
    /// when set, outcomes are chosen at launch among this many
    pub kinds: u64,
    /// when an interrupt reaches the processes that are running then
    pub interrupt: Option<u64>,
}
static WORLD: Cell0<Option<W>> = Cell0::new(None);
pub fn w() -> &'static mut W {
    WORLD.get().get_or_insert_with(W::default)
}
pub fn fails(t: &Task) -> bool {
    t.status != Some(0)
}
struct Run(usize, usize);
impl Drop for Run {
    fn drop(&mut self) {
        w().running[self.1] -= 1;
    }
}
fn launch(rq: &Request) -> usize {
    let i: usize = rq.args[0].to_str().unwrap().parse().unwrap();
    let x = w();
    x.order.push(i);
    let deps = x.tasks[i].deps.clone();
    for d in deps {
        let dep = &x.tasks[d];
        let ok = x.had.get(d).copied().unwrap_or(false) || (dep.starts == 1 && dep.t1.is_some() && !fails(dep));
        nd::check(ok, "C01: a task was launched before every dependency had succeeded");
    }
    let t = &mut x.tasks[i];
    nd::check(t.pre > 0, "C26: a task was launched before its preamble was called");
    nd::check(t.pre < 2, "C26: a preamble was called more than once");
    t.starts += 1;
    nd::check(t.starts == 1, "C02: a task was launched twice");
    t.t0 = env::now_ns();
    i
}
pub fn spawner() {
    tokio::process::set_spawner(|rq| {
        let i = launch(&rq);
        if w().kinds > 0 {
            w().tasks[i].status = outcome(w().kinds);
        }
        if w().tasks[i].status.is_none() {
            w().tasks[i].t1 = Some(env::now_ns());
            return Err(std::io::Error::from_raw_os_error(2));
        }
        let console = (rq.out == tokio::process::Stdio::Inherit) as usize;
        let terminal = [rq.stdin, rq.out, rq.err].map(|x| x == tokio::process::Stdio::Inherit);
        nd::check(w().tasks[i].aff & 3 != 2 || terminal == [true; 3], "C22: a console task does not have the terminal");
        nd::check(w().tasks[i].aff & 3 != 1 || terminal == [false; 3], "C22: an ordinary task has the terminal");
        w().running[console] += 1;
        w().peak[console] = w().peak[console].max(w().running[console]);
        let g = Run(i, console);
        Ok(Box::pin(async move {
            let _g = g;
            let _keep = rq;
            let s = w().tasks[i].secs;
            if let Some(t) = w().interrupt {
                let t0 = w().tasks[i].t0;
                if t0 <= t && t < t0 + s * SEC {
                    tokio::time::sleep(std::time::Duration::from_nanos(t - t0)).await;
                    w().tasks[i].status = Some(2);
                    w().tasks[i].t1 = Some(env::now_ns());
                    return 2;
                }
            }
            if s > 0 {
                tokio::time::sleep(std::time::Duration::from_secs(s)).await;
            }
            w().tasks[i].t1 = Some(env::now_ns());
            w().tasks[i].status.unwrap()
        }))
    });
}
fn preamble(ctx: *const std::ffi::c_void, _: u32, _: u32, _: u32, _: u64) -> i32 {
    w().tasks[ctx as usize - 1].pre += 1;
    0
}
fn postamble(ctx: *const std::ffi::c_void, success: u32, runcount: u32, _lost: u32, ntasks: u64) -> i32 {
    let t = &mut w().tasks[ctx as usize - 1];
    nd::check(t.starts > 0, "C26: the postamble of a task was called before it was launched");
    nd::check(success == 0 || t.t1.is_some(), "C26: a postamble reports success for a task that has not ended");
    t.post.push((success, runcount, ntasks));
    0
}
fn capsule(f: fn(*const std::ffi::c_void, u32, u32, u32, u64) -> i32, i: usize) -> Option<crate::execgraph::Capsule> {
    Some(crate::execgraph::Capsule::new(pyo3::PyObject::capsule(f as *mut std::ffi::c_void, (i + 1) as *mut std::ffi::c_void)))
}
/// the callbacks of an execution of `total` tasks in which each task was run at most once
pub fn check_callbacks(total: usize) {
    let mut ok = std::collections::HashMap::new();
    for e in read_log() {
        if let LogEntry::Finished(f) = e {
            ok.insert(f.key.clone(), f.status == 0);
        }
    }
    for (i, t) in w().tasks.iter().enumerate() {
        nd::check((t.pre > 0) == (t.starts > 0), "C26: the preamble of a task that did not run was called");
        nd::check(t.pre < 2, "C26: a preamble was called more than once");
        nd::check(t.post.len() == t.starts, if t.post.len() < t.starts { "C26: the postamble of a task that ran was not called" } else { "C26: a postamble was called more than once" });
        if let Some(p) = t.post.last() {
            nd::check((p.0 != 0) == ok[&t.key], "C26: the postamble was told another result than the log");
            nd::check(p.1 == 5 + i as u32, "C26: the postamble was told another run count than the task's");
            nd::check(p.2 == total as u64, "C26: the postamble was told another number of tasks");
            nd::cover(if p.0 != 0 { "called after success" } else { "called after failure" });
        } else {
            nd::cover("not called");
        }
    }
}
pub fn cmd(i: usize, t: &Task) -> Cmd {
    Cmd {
        preamble: capsule(preamble, i),
        postamble: capsule(postamble, i),
        runcount: 5 + i as u32,
        cmdline: vec!["run".into(), i.to_string().into()],
        key: t.key.clone(),
        display: Some("d".into()),
        affinity: BitArray::new(t.aff),
        ..Cmd::default()
    }
}
/// any dag on n nodes in index order
/// `n` from 100 on: n - 100 independent tasks
fn flat(n: u64) -> (usize, bool) {
    if n >= 100 { (n as usize - 100, true) } else { (n as usize, false) }
}
pub fn dag(n: usize) -> Vec<Vec<usize>> {
    (0..n).map(|j| (0..j).filter(|_| nd::choose(2, "edge") == 1).collect()).collect()
}
pub fn graph(l: LogFile<LogFileRW>) -> ExecGraph {
    let mut g = ExecGraph::new(l);
    for (i, t) in w().tasks.iter().enumerate() {
        let id = g.add_task(cmd(i, t), t.deps.iter().map(|&d| d as u32).collect()).unwrap();
        nd::check(id as usize == i, "ids are handed out in order");
    }
    g
}
pub fn open() -> LogFile<LogFileRW> {
    let mut l = LogFile::<LogFileRW>::new(LOG).unwrap();
    l.write(LogEntry::Header(HeaderEntry {
        version: LOGFILE_VERSION,
        time: std::time::SystemTime::now(),
        user: "u".into(),
        hostname: "h".into(),
        workflow_key: "wf".into(),
        cmdline: vec![],
        workdir: "/".into(),
        pid: 1,
        storage_roots: vec![],
    }))
    .unwrap();
    l
}
/// what the log says about every key: (ready, started, finished with status), in file order
pub fn read_log() -> Vec<LogEntry> {
    LogFileSnapshotReader::open(LOG.into()).unwrap().read().unwrap()
}
/// lifecycle of each task in the part of the log after entry `from`
pub fn check_log(from: usize) {
    let n = w().tasks.len();
    let mut st = vec![0; n];
    let idx = |k: &str| w().tasks.iter().position(|t| t.key == k).unwrap();
    for e in read_log().iter().skip(from) {
        match e {
            LogEntry::Ready(r) => {
                let i = idx(&r.key);
                nd::check(st[i] == 0, "C04: a task is logged as ready twice");
                st[i] = 1;
            }
            LogEntry::Started(s) => {
                let i = idx(&s.key);
                nd::check(st[i] == 1, "C04: a task is logged as started without being ready");
                for &d in &w().tasks[i].deps {
                    nd::check(st[d] == 3 || w().had.get(d).copied().unwrap_or(false), "C01,C04: a task is logged as started before its dependencies finished");
                }
                st[i] = 2;
            }
            LogEntry::Finished(f) => {
                let i = idx(&f.key);
                nd::check(st[i] == 2, "C04: a task is logged as finished without having been started");
                st[i] = 3;
                let t = &w().tasks[i];
                let want = match t.status {
                    None => -1,
                    Some(s) if s & 0x7f == 0 => (s >> 8) & 0xff,
                    Some(s) => -(s & 0x7f),
                };
                if t.t1.is_some() {
                    let v = f.status;
                    nd::check(v == want || v == -10 || v == -1, "C04: the log has another exit status than the process");
                } else {
                    nd::check(f.status == -10 || f.status == -1, "C04,C05: an interrupted task is not logged as cancelled");
                }
            }
            _ => {}
        }
    }
    for i in 0..n {
        nd::check(st[i] != 2, "C04,C05: a started task has no finished entry at the end");
        if w().tasks[i].starts > 0 {
            nd::check(st[i] == 3, "C04,C05: a launched task is missing in the log");
        }
    }
}
fn outcome(kinds: u64) -> Option<i32> {
    match nd::choose(kinds as usize, "outcome") {
        0 => Some(0),
        1 => Some(1 << 8),
        2 => None,
        _ => Some(9),
    }
}

/// n tasks with arbitrary dependencies and outcomes, no failure limit
#[no_mangle]
pub extern "C" fn h_run(n: u64, kinds: u64, durations: u64, parallel: u64, console: u64, delays: u64, selects: u64, preempt: u64) {
    let n = n as usize;
    let deps = dag(n);
    for (i, d) in deps.into_iter().enumerate() {
        let aff = if console > 0 { 1 + nd::choose(3, "affinity") as u64 } else { 1 };
        w().tasks.push(Task {
            key: format!("k{i}"),
            deps: d,
            status: outcome(kinds),
            secs: if durations > 1 { 3 * nd::choose(durations as usize, "duration") as u64 } else { 0 },
            aff,
            ..Default::default()
        });
    }
    spawner();
    sched::budgets(delays as u32, selects as u32, preempt as u32);
    let mut g = graph(open());
    let r = tokio::rt::try_block_on(g.execute(None, parallel as u32, u32::MAX, true, None, 0));
    sched::budgets(0, 0, 0);
    let r = match r {
        Err(e) => {
            nd::fail("the execution does not end");
            return;
        }
        Ok(r) => r,
    };
    drop(g);
    let (nf, done) = r.unwrap();
    let x = w();
    let mut runs = vec![false; n];
    for i in 0..n {
        runs[i] = x.tasks[i].deps.iter().all(|&d| runs[d] && !fails(&x.tasks[d]));
        let t = &x.tasks[i];
        nd::check((t.starts > 0) == runs[i], if runs[i] { "C02: a task whose dependencies succeeded was never run" } else { "C01: a task below a failure was run" });
        if runs[i] {
            nd::check(t.t1.is_some(), "C02: a task was interrupted");
            nd::cover(if fails(t) { "failed" } else { "succeeded" });
        } else {
            nd::cover("poisoned");
        }
        nd::log(i as u64, t.starts as u64);
    }
    nd::check(nf as usize == (0..n).filter(|&i| runs[i] && fails(&x.tasks[i])).count(), "C02: the number of failures is wrong");
    nd::check(done.len() == runs.iter().filter(|&&r| r).count(), "C02: the finished tasks are not those that ran");
    for (p, k) in done.iter().enumerate() {
        let i = x.tasks.iter().position(|t| &t.key == k).unwrap();
        nd::check(runs[i], "C02: a task that never ran is reported as finished");
        for &d in &x.tasks[i].deps {
            nd::check(done[..p].contains(&x.tasks[d].key), "C02: the finishing order puts a task before its dependency");
        }
    }
    nd::check(x.peak[0] <= parallel as usize, "C22: more processes at once than allowed");
    nd::check(x.peak[1] <= 1, "C22: more than one console process at once");
    check_log(0);
    check_callbacks(n);
}

const DUR: [u64; 4] = [0, 3, 8, 5];
fn secs_of(t: std::time::SystemTime) -> u64 {
    t.duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64
}
/// n tasks, at most k quick failures allowed: what is launched afterwards, what is cancelled, that it ends
#[no_mangle]
pub extern "C" fn h_limit(n: u64, k: u64, parallel: u64, durations: u64, delays: u64, selects: u64, preempt: u64) {
    let (n, flat) = flat(n);
    let deps = if flat { vec![vec![]; n] } else { dag(n) };
    for (i, d) in deps.into_iter().enumerate() {
        w().tasks.push(Task { key: format!("k{i}"), deps: d, status: outcome(2), secs: DUR[flat as usize + nd::choose(durations as usize, "duration")], aff: 1, ..Default::default() });
    }
    spawner();
    sched::budgets(delays as u32, selects as u32, preempt as u32);
    let mut g = graph(open());
    let r = tokio::rt::try_block_on(g.execute(None, parallel as u32, k as u32, true, None, 0));
    sched::budgets(0, 0, 0);
    let end = env::now_ns();
    let r = match r {
        Err(e) => {
            nd::fail("the execution does not end");
            return;
        }
        Ok(r) => r,
    };
    drop(g);
    let (nf, done) = r.unwrap();
    check_log(0);
    check_callbacks(n);
    let x = w();
    // the moment at which the k-th quick failure is on record
    let log = read_log();
    let pos = |key: &str| x.tasks.iter().position(|t| t.key == key).unwrap();
    let (mut fizz, mut stop) = (0, None);
    for (p, e) in log.iter().enumerate() {
        if let LogEntry::Finished(f) = e {
            let i = pos(&f.key);
            let quick = x.tasks[i].t1.map(|t1| t1 - x.tasks[i].t0 < 5 * SEC).unwrap_or(false);
            if f.status != 0 && quick && f.status != -10 {
                fizz += 1;
                if fizz == k && stop.is_none() {
                    stop = Some((p, secs_of(f.time)));
                }
            }
        }
    }
    nd::log(1, fizz);
    nd::log(2, nf as u64);
    let failed = x.tasks.iter().filter(|t| t.starts > 0 && (t.t1.is_none() || fails(t))).count();
    match stop {
        None => {
            nd::cover("limit not reached");
            let mut runs = vec![false; n];
            for i in 0..n {
                runs[i] = x.tasks[i].deps.iter().all(|&d| runs[d] && !fails(&x.tasks[d]));
                nd::check((x.tasks[i].starts > 0) == runs[i], "C03: below the limit a task is left out or run in vain");
                nd::check(!runs[i] || x.tasks[i].t1.is_some(), "C03: below the limit a task is interrupted");
            }
        }
        Some((p, t)) => {
            nd::cover("limit reached");
            for e in &log[p..] {
                nd::check(!matches!(e, LogEntry::Ready(_)), "C03: a task becomes ready after the limit was reached");
            }
            for y in x.tasks.iter().filter(|y| y.starts > 0) {
                nd::check(y.t0 <= t, "C03: a task is launched after the limit was reached");
                if y.t1.is_none() {
                    nd::cover("cancelled");
                    nd::check(t < y.t0 + 5 * SEC, "C03: an old task is cancelled when the limit is reached");
                } else if y.t1.unwrap() > t {
                    nd::cover("old task finished");
                    nd::check(t >= y.t0 + 5 * SEC, "C03: a young task is not cancelled when the limit is reached");
                }
            }
            for e in &log {
                if let LogEntry::Finished(f) = e {
                    let y = &x.tasks[pos(&f.key)];
                    if y.t1.map(|t1| t1 > t).unwrap_or(false) {
                        nd::check((f.status == 0) == !fails(y), "C03: an old task's result is lost");
                    }
                }
            }
        }
    }
    nd::check(nf as usize == failed || stop.is_some(), "C02: the number of failures is wrong");
    nd::check(nf as usize >= x.tasks.iter().filter(|t| t.t1.is_some() && fails(t) && t.starts > 0).count().min(k as usize), "C03: failures are not counted");
    for i in 0..x.running.len() {
        nd::check(x.running[i] == 0, "C03,C05: a process is still running after the execution ended");
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Past {
    Never,
    Success,
    Failure,
}
/// several executions, some of them in a new session on the same log file: what is run, what is reused,
/// what is left out, and what the log file says afterwards
#[no_mangle]
pub extern "C" fn h_sessions(n: u64, rounds: u64, kinds: u64, parallel: u64, targets: u64, delays: u64) {
    let n = n as usize;
    let deps = dag(n);
    for (i, d) in deps.into_iter().enumerate() {
        w().tasks.push(Task { key: format!("k{i}"), deps: d, aff: 1, ..Default::default() });
    }
    w().kinds = kinds;
    w().had = vec![false; n];
    spawner();
    sched::budgets(delays as u32, 0, 0);
    let mut g = graph(open());
    // what the log says about each key at the start of the session, and what was done in this session
    let mut past = vec![Past::Never; n];
    let mut here = vec![Past::Never; n];
    let mut now = vec![Past::Never; n];
    let mut log0 = 1;
    let mut refs: Vec<usize> = vec![];
    for r in 0..rounds {
        if r > 0 && nd::choose(2, "new session") == 1 {
            drop(g);
            check_log(log0);
            past = now.clone();
            here = vec![Past::Never; n];
            log0 = read_log().len();
            refs.clear();
            let l = open();
            for i in 0..n {
                let k = format!("k{i}");
                nd::check(l.has_success(&k) == (past[i] == Past::Success), "C06: the reopened log disagrees about a success");
                nd::check(l.has_failure(&k) == (past[i] == Past::Failure), "C06: the reopened log disagrees about a failure");
            }
            for (i, t) in w().tasks.iter_mut().enumerate() {
                t.starts = 0;
                t.t1 = None;
                w().had[i] = past[i] == Past::Success;
            }
            g = graph(l);
            log0 += 1;
            nd::cover("new session");
        }
        let target = if targets > 0 { nd::choose(n + 1, "target") } else { n };
        let rerun = nd::choose(2, "rerun failures") == 1;
        let before: Vec<usize> = w().tasks.iter().map(|t| t.starts).collect();
        for t in w().tasks.iter_mut() {
            t.pre = 0;
            t.post.clear();
        }
        // what should happen
        let mut rel = vec![target == n; n];
        if target < n {
            rel[target] = true;
        }
        for j in (0..n).rev() {
            if rel[j] {
                for &d in &w().tasks[j].deps {
                    rel[d] = true;
                }
            }
        }
        // the tasks of the execution: what is needed, not done yet, and not below a known failure
        let mut member = vec![false; n];
        for i in 0..n {
            member[i] = rel[i]
                && here[i] == Past::Never
                && past[i] != Past::Success
                && (rerun || past[i] != Past::Failure)
                && w().tasks[i].deps.iter().all(|&d| here[d] == Past::Success || past[d] == Past::Success || member[d]);
        }
        let members = member.iter().filter(|&&x| x).count() as u64;
        let res = tokio::rt::try_block_on(g.execute((target < n).then_some(target as u32), parallel as u32, u32::MAX, rerun, None, 0));
        let Ok(res) = res else {
            nd::fail("the execution does not end");
            return;
        };
        let (nf, done) = res.unwrap();
        let mut ran = 0;
        let mut bad = 0;
        for i in 0..n {
            let t = &w().tasks[i];
            let started = t.starts > before[i];
            let mut run = false;
            if rel[i] && here[i] == Past::Never {
                if past[i] == Past::Success {
                    here[i] = Past::Success;
                    refs.push(i);
                    nd::cover("reused");
                } else if t.deps.iter().all(|&d| here[d] == Past::Success) {
                    if !rerun && past[i] == Past::Failure {
                        here[i] = Past::Failure;
                        refs.push(i);
                        nd::cover("failure not repeated");
                    } else {
                        run = true;
                        here[i] = if started && !fails(t) { Past::Success } else { Past::Failure };
                        now[i] = here[i];
                        ran += 1;
                        bad += fails(t) as u32;
                    }
                } else if !rerun && past[i] == Past::Failure {
                    // a failure of an earlier run below another failure: also kept
                    here[i] = Past::Failure;
                    refs.push(i);
                }
            }
            nd::check(started == run, if run { "C08: a task that has to be run is left out" } else { "C08: a task is run that must not be" });
            nd::check(t.pre == started as usize && t.post.len() == started as usize, "C26: a callback is missing or one too many");
            if started {
                nd::check((t.post[0].0 != 0) == !fails(t), "C26: the postamble was told another result");
                nd::check(t.post[0].1 == 5 + i as u32 && t.post[0].2 == members, "C26: the postamble was told another run count or number of tasks");
                nd::check(done.contains(&t.key), "C08: a task that ran is not reported");
            }
        }
        nd::check(done.len() == ran && nf == bad, "C08: the reported results are not those of this execution");
    }
    drop(g);
    check_log(log0);
    let mut back: Vec<String> = read_log().iter().skip(log0).filter_map(|e| if let LogEntry::Backref(b) = e { Some(b.key.clone()) } else { None }).collect();
    let mut want: Vec<String> = refs.iter().map(|i| format!("k{i}")).collect();
    back.sort();
    want.sort();
    nd::check(back == want, "C07,C08: the log does not refer back to exactly the results reused");
    // the current part of the snapshot has the whole story of everything that was reused or run in this session
    let (cur, old) = LogFileSnapshotReader::open(LOG.into()).unwrap().read_current_and_outdated().unwrap();
    for i in 0..n {
        let k = format!("k{i}");
        let f = cur.iter().filter(|e| matches!(e, LogEntry::Finished(f) if f.key == k)).count();
        nd::check((f == 1) == (here[i] != Past::Never), "C07: the current results in the log are not those of this session");
        nd::check(f <= 1, "C07: two current results for one task");
        let o = old.iter().filter(|e| matches!(e, LogEntry::Finished(f) if f.key == k)).count();
        nd::check(o == 0 || here[i] == Past::Never, "C07: a current task is also listed as outdated");
        nd::log(i as u64, f as u64);
    }
}

/// the user interrupts the execution at some time: it ends at once, nothing is launched any more, nothing is left
/// running, and the log has the whole story
#[no_mangle]
pub extern "C" fn h_interrupt(n: u64, parallel: u64, kinds: u64, durations: u64, times: u64, yields: u64, delays: u64, selects: u64, preempt: u64) {
    let n = n as usize;
    // yields: the interrupt comes at some point of the first instant, or of one at which tasks end
    let t = env::now_ns() + if yields > 0 { 2 * SEC * nd::choose(times as usize, "interrupt after") as u64 } else { SEC * nd::choose(times as usize, "interrupt after") as u64 + 500_000_000 * (1 + nd::choose(2, "half") as u64) };
    let yields = if yields > 0 { nd::choose(yields as usize, "yields") } else { 0 };
    for (i, d) in dag(n).into_iter().enumerate() {
        w().tasks.push(Task { key: format!("k{i}"), deps: d, status: outcome(kinds), secs: [0, 2, 1000][nd::choose(durations as usize, "duration")], aff: 1, ..Default::default() });
    }
    let reacts = nd::choose(2, "processes get it too") == 1;
    w().interrupt = reacts.then_some(t);
    spawner();
    let mut g = graph(open());
    tokio::task::spawn_named("user", async move {
        let d = t - env::now_ns();
        if d > 0 {
            tokio::time::sleep(std::time::Duration::from_nanos(d)).await;
        }
        for _ in 0..yields {
            tokio::task::yield_now().await;
        }
        if !tokio::signal::unix::raise(2) {
            // nothing listens yet: the default action ends the program
            nd::assume(false);
        }
    });
    sched::budgets(delays as u32, selects as u32, preempt as u32);
    tokio::rt::rt().max_polls = 20000;
    let r = tokio::rt::try_block_on(g.execute(None, parallel as u32, u32::MAX, true, None, 0));
    sched::budgets(0, 0, 0);
    let Ok(r) = r else {
        nd::fail("the execution does not end");
        return;
    };
    let end = env::now_ns();
    let (nf, done) = r.unwrap();
    drop(g);
    nd::check(end < t + SEC, "C05: the execution goes on after an interrupt");
    check_log(0);
    check_callbacks(n);
    let x = w();
    nd::cover(if end < t { "finished before" } else { "interrupted" });
    for y in &x.tasks {
        nd::check(y.starts == 0 || y.t0 <= t, "C05: a task is launched after an interrupt");
        if y.starts > 0 && y.t1.is_none() {
            nd::cover("killed");
        }
        if let Some(t1) = y.t1 {
            // what ended well before the interrupt keeps its result
            if t1 < t {
                let f = read_log().iter().any(|e| matches!(e, LogEntry::Finished(f) if f.key == y.key && (f.status == 0) == !fails(y)));
                nd::check(f, "C05: the result of a task that ended before the interrupt is lost");
            }
        }
    }
    for e in read_log() {
        if let LogEntry::Finished(f) = e {
            let y = x.tasks.iter().find(|y| y.key == f.key).unwrap();
            nd::check(f.status != 0 || (y.t1.is_some() && !fails(y)), "C05: an interrupted task is logged as a success");
        }
    }
    for i in 0..x.running.len() {
        nd::check(x.running[i] == 0, "C05: a process is still running after the execution ended");
    }
    nd::check(nd::fs::sent().iter().any(|s| s.1 == 15), "C05: the process group is not terminated at the end");
    nd::log(1, end.saturating_sub(t));
}

/// a sequence of additions, valid or not, with any dependencies; then everything is run
#[no_mangle]
pub extern "C" fn h_add(k: u64, keys: u64, ndeps: u64) {
    let mut g = ExecGraph::new(open());
    // what is in the graph: key, command, dependencies
    let mut have: Vec<(String, usize, Vec<usize>)> = vec![];
    for a in 0..k as usize {
        let key = format!("k{}", nd::choose(keys as usize, "key"));
        let kind = nd::choose(3, "command, empty, or with an input at descriptor 3");
        let (empty, reserved) = (kind == 1, kind == 2);
        let deps: Vec<u32> = (0..nd::choose(ndeps as usize + 1, "dependencies")).map(|_| nd::u32("dependency")).collect();
        let mut c = cmd(a, &Task { key: key.clone(), aff: 1, ..Default::default() });
        c.preamble = None;
        c.postamble = None;
        if empty {
            c.cmdline.clear();
        }
        if reserved {
            c.fd_input = Some((3, vec![1]));
        }
        let r = g.add_task(c, deps.clone());
        if let Some(i) = have.iter().position(|h| h.0 == key) {
            nd::check(matches!(r, Ok(x) if x as usize == i), "C23: adding a task with a known key does not return the task");
            nd::cover("known key");
        } else if empty || reserved || deps.iter().any(|&d| d as usize >= have.len()) {
            nd::check(r.is_err(), "C23: an invalid task is accepted");
            nd::cover(if empty { "empty command" } else if reserved { "reserved descriptor" } else { "unknown dependency" });
        } else {
            nd::check(matches!(r, Ok(x) if x as usize == have.len()), "C23: a valid task is refused or gets a wrong id");
            have.push((key, a, deps.iter().map(|&d| d as usize).collect()));
            nd::cover("added");
        }
        nd::check(g.ntasks() == have.len(), "C23: the number of tasks is wrong");
        let tk = g.task_keys();
        nd::check(tk.len() == have.len() && tk.iter().zip(&have).all(|(a, b)| *a == b.0), "C23: the list of keys is wrong");
        for (i, h) in have.iter().enumerate() {
            let c = g.get_task(i as u32);
            nd::check(matches!(&c, Some(c) if c.key == h.0 && c.cmdline.len() == 2 && c.cmdline[1].to_str() == Some(h.1.to_string().as_str())), "C23: a task is not what was added");
        }
        nd::check(g.get_task(have.len() as u32).is_none(), "C23: there is a task that was not added");
    }
    let n = have.len();
    for (i, h) in have.iter().enumerate() {
        w().tasks.push(Task { key: h.0.clone(), deps: h.2.clone(), status: outcome(2), aff: 1, pre: 1, ..Default::default() });
        nd::log(i as u64, h.1 as u64);
    }
    // commands are known by the number of their addition
    let of: Vec<usize> = have.iter().map(|h| h.1).collect();
    tokio::process::set_spawner(move |rq| {
        let a: usize = rq.args[0].to_str().unwrap().parse().unwrap();
        let Some(i) = of.iter().position(|&x| x == a) else {
            nd::fail("C23: a command that was not accepted is run");
            return Err(std::io::Error::from_raw_os_error(2));
        };
        let x = w();
        for d in x.tasks[i].deps.clone() {
            nd::check(x.tasks[d].starts == 1 && !fails(&x.tasks[d]), "C23: a task runs before the dependencies it was added with");
        }
        x.tasks[i].starts += 1;
        let s = x.tasks[i].status.unwrap();
        Ok(Box::pin(async move { s }))
    });
    let r = tokio::rt::try_block_on(g.execute(None, 2, u32::MAX, true, None, 0));
    let Ok(r) = r else {
        nd::fail("the execution does not end");
        return;
    };
    let (_, done) = r.unwrap();
    let x = w();
    let mut runs = vec![false; n];
    for i in 0..n {
        runs[i] = x.tasks[i].deps.iter().all(|&d| runs[d] && !fails(&x.tasks[d]));
        nd::check(x.tasks[i].starts == runs[i] as usize, "C23: the tasks that run are not those that were added");
    }
    nd::check(done.len() == runs.iter().filter(|&&r| r).count(), "C23: the finished tasks are not those that were added");
}

const SHOWN: [char; 7] = ['a', ' ', '\t', '\\', '\n', '\u{e9}', '\r'];
/// the text shown for a command of up to `words` words of up to `len` characters
#[no_mangle]
pub extern "C" fn h_display(words: u64, len: u64) {
    let n = 1 + nd::choose(words as usize, "words");
    let ws: Vec<String> = (0..n).map(|_| (0..nd::choose(len as usize + 1, "length")).map(|_| SHOWN[nd::choose(SHOWN.len(), "character")]).collect()).collect();
    let given = nd::choose(2, "display given") == 1;
    let c = Cmd { cmdline: ws.iter().map(|x| x.into()).collect(), display: given.then(|| "x\t\\\ny".to_string()), ..Cmd::default() };
    let got = c.display();
    if given {
        nd::check(got == "x\t\\\ny", "C27: the display text given is not the one shown");
        nd::cover("given");
        return;
    }
    let mut joined = String::new();
    for (i, x) in ws.iter().enumerate() {
        if i > 0 {
            joined.push(' ');
        }
        joined.push_str(x);
    }
    // line continuations become blanks, tabs become visible, everything else stays
    let b: Vec<char> = joined.chars().collect();
    let mut want = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\\' && i + 1 < b.len() && b[i + 1] == '\n' {
            want.push(' ');
            i += 2;
            nd::cover("continuation");
        } else {
            if b[i] == '\t' {
                want.push_str("\\t");
                nd::cover("tab");
            } else {
                want.push(b[i]);
            }
            i += 1;
        }
    }
    nd::check(got == want, "C27: the text shown is not the command");
    nd::log(1, got.len() as u64);
}

/// the mean of the last durations, for any durations
#[no_mangle]
pub extern "C" fn h_mean(cap: u64, n: u64) {
    let mut r = crate::simpleringbuffer::RingbufferForDurationAverages::new(cap as usize);
    let v = r.view();
    nd::check(v.mean() == std::time::Duration::from_millis(0), "C27: the mean of nothing is not zero");
    let mut ms: Vec<u64> = vec![];
    for i in 0..n as usize {
        let m = nd::below(1 << 40, "milliseconds");
        let rest = nd::below(1_000_000, "nanoseconds") as u32;
        // a duration of m ms and a bit, put together without a division
        let s = nd::below(1 << 31, "seconds");
        let sub = nd::below(1000, "and milliseconds");
        nd::assume(m == s * 1000 + sub);
        r.push(std::time::Duration::new(s, sub as u32 * 1_000_000 + rest));
        ms.push(m);
        let last = &ms[ms.len().saturating_sub(cap as usize)..];
        let sum: u64 = last.iter().sum();
        let mean = v.mean().as_millis() as u64;
        let k = last.len() as u64;
        nd::check(mean * k <= sum && sum < (mean + 1) * k, "C27: the mean duration is not that of the recent tasks");
        nd::cover(if ms.len() > cap as usize { "old ones dropped" } else { "all" });
    }
}
