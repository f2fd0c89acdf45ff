// The class the Python package exports: sessions on one log file, as a user of PyExecGraph sees them.
//@inject src/pylib.rs
use crate::logfile2::{HeaderEntry, LogEntry, LogFileSnapshotReader, LOGFILE_VERSION};
use nd::env::{self, Cell0};
use pyo3::types::PyTuple;
use pyo3::Val;
use std::rc::Rc;

const LOG: &str = "/ndfs/w.log";
const SEC: u64 = 1_000_000_000;
#[derive(Default)]
struct W {
    /// launches: task, time, end
    runs: Vec<(usize, u64, Option<u64>)>,
    running: usize,
    peak: usize,
    ok: Vec<bool>,
    secs: Vec<u64>,
    keyed: usize,
    pre: usize,
    post: usize,
    input: Vec<Option<(i32, Vec<u8>)>>,
}
static WORLD: Cell0<Option<W>> = Cell0::new(None);
fn w() -> &'static mut W {
    WORLD.get().get_or_insert_with(W::default)
}
struct Run;
impl Drop for Run {
    fn drop(&mut self) {
        w().running -= 1;
    }
}
fn spawner() {
    tokio::process::set_spawner(|rq| {
        let i: usize = rq.args[0].to_str().unwrap().parse().unwrap();
        let r = w().runs.len();
        w().runs.push((i, env::now_ns(), None));
        w().running += 1;
        w().peak = w().peak.max(w().running);
        let g = Run;
        Ok(Box::pin(async move {
            let _g = g;
            let _keep = rq;
            let s = w().secs[i];
            if s > 0 {
                tokio::time::sleep(std::time::Duration::from_secs(s)).await;
            }
            w().runs[r].2 = Some(env::now_ns());
            if w().ok[i] { 0 } else { 1 << 8 }
        }))
    });
}
fn keyfn(key: &'static str) -> Option<PyObject> {
    Some(PyObject::of(Val::Call(Rc::new(move || {
        w().keyed += 1;
        Ok(Val::Str(key.into()))
    }))))
}
fn new(py: Python, parallel: i32, roots: &[&str], failures: u32, key: Option<PyObject>, rerun: bool) -> PyResult<PyExecGraph> {
    PyExecGraph::new(py, parallel, LOG.into(), roots.iter().map(|r| r.into()).collect(), failures, key, rerun)
}
fn add(py: Python, g: &mut PyExecGraph, i: usize, key: &str, deps: Vec<u32>, root: u32) -> PyResult<u32> {
    g.add_task(vec!["run".into(), i.to_string().into()], key.into(), deps, Some(format!("task {i}")), 1, None, None, None, root)
}
fn read_log() -> Vec<LogEntry> {
    LogFileSnapshotReader::open(LOG.into()).unwrap().read().unwrap()
}
/// keeps the first n lines of the log file
fn cut(n: usize) {
    let b = nd::fs::get(LOG).unwrap();
    let mut end = 0;
    for _ in 0..n {
        end += b[end..].iter().position(|&c| c == b'\n').unwrap() + 1;
    }
    nd::fs::put(LOG, &b[..end]);
}
const NAME: [&str; 3] = ["k", "k.1", "k0"];
/// what the log is known to hold of a key: 1 ready, 2 started, 3 failed, 4 succeeded; run count; root
type Known = Option<(u8, u32, u32)>;
/// the run count the next run of a key has, and where the results of a success are
fn next(k: Known, key: &str, roots: &[String]) -> (u32, Option<PathBuf>) {
    match k {
        None => (0, None),
        Some((1, c, _)) => (c, None),
        Some((2, c, _)) | Some((3, c, _)) => (c + 1, None),
        Some((_, c, r)) => (c, Some(PathBuf::from(format!("{}/{key}.{c}", roots[r as usize])))),
    }
}

/// sessions of one workflow, each of them complete or ended by a crash after any entry: run counts, storage roots, the
/// workflow's key and what the next session makes of them
#[no_mangle]
pub extern "C" fn h_py_sessions(keys: u64, sessions: u64, chain: u64, crash: u64, delays: u64) {
    let keys = keys as usize;
    spawner();
    Python::with_gil(|py| {
        let mut known: Vec<Known> = vec![None; keys];
        let mut used: Vec<(usize, u32)> = vec![];
        // the workflow's key, once a header is in the file
        let mut wf: Option<&str> = None;
        let mut headers = 0;
        for s in 0..sessions {
            let many = ["a-$KEY", "/abs/b", "c$KEY$KEY"];
            let fresh = ["wf0", "wf1", "wf2"][s as usize];
            let roots = &many[..if s > 0 { 3 } else { 2 }];
            let want_roots: Vec<String> = [format!("/ndfs/a-{}", wf.unwrap_or(fresh)), "/abs/b".into(), format!("/ndfs/c{0}{0}", wf.unwrap_or(fresh))][..roots.len()].to_vec();
            let rerun = nd::choose(2, "rerun failures") == 1;
            let keyed = w().keyed;
            let mut g = match new(py, 1, roots, 0, keyfn(fresh), rerun) {
                Ok(g) => g,
                Err(e) => {
                    nd::fail("C28,C06: a session cannot continue an earlier one");
                    return;
                }
            };
            nd::check(w().keyed == keyed + wf.is_none() as usize, "C28: the function for the workflow's key is not called exactly for a new workflow");
            nd::check(g.key() == wf.unwrap_or(fresh), "C28: the workflow's key changes between sessions");
            nd::check(g.all_storage_roots() == want_roots.iter().map(PathBuf::from).collect::<Vec<_>>(), "C28: the storage roots are not those of the session");
            // the session's header, which may not be in the file yet
            let log0 = read_log().iter().filter(|e| !matches!(e, LogEntry::Header(_))).count() + headers;
            let mut plan = vec![];
            for k in 0..keys {
                let key = NAME[k];
                let want = next(known[k], key, &want_roots);
                let got = g.logfile_runcount(key);
                nd::check(got.0 == want.0, "C28: the run count is not the one that follows from the history");
                nd::check(got.1 == want.1, "C28: the place of an earlier result is not the recorded one");
                let root = [0, roots.len() as u32 - 1][nd::choose(2, "root")];
                let deps = if chain > 0 && k > 0 { vec![k as u32 - 1] } else { vec![] };
                let id = add(py, &mut g, k, key, deps, root).unwrap();
                nd::check(id as usize == k && g.ntasks() == k + 1, "C28: a task has another id than its position");
                plan.push((want.0, root));
            }
            nd::check(g.task_keys() == NAME[..keys].iter().map(|s| s.to_string()).collect::<Vec<_>>(), "C28: the keys are not those of the tasks");
            w().ok = (0..keys).map(|k| nd::choose(2, "outcome") == 0).collect();
            w().secs = vec![0; keys];
            let before = w().runs.len();
            tokio::sched::budgets(delays as u32, 0, 0);
            let (nf, done) = g.execute(py, None, None, None, 0).unwrap();
            tokio::sched::budgets(0, 0, 0);
            drop(g);
            // what ran
            let mut fine = vec![false; keys];
            let mut bad = 0;
            for k in 0..keys {
                let n = w().runs[before..].iter().filter(|r| r.0 == k).count();
                let ready = chain == 0 || k == 0 || fine[k - 1];
                let reused = matches!(known[k], Some((4, ..)));
                let kept = matches!(known[k], Some((3, ..))) && !rerun;
                nd::check((n == 1) == (ready && !reused && !kept) && n <= 1, "C28,C08: a task runs although it need not, or does not although it must");
                fine[k] = ready && (reused || (n == 1 && w().ok[k]));
                if n == 1 {
                    bad += !w().ok[k] as u32;
                    nd::check(done.contains(&NAME[k].to_string()), "C28,C08: a task that ran is not among the results");
                    nd::cover("ran");
                }
                nd::cover(if reused { "reused" } else if kept { "failure kept" } else { "to do" });
            }
            nd::check(nf == bad, "C28,C08: the number of failures is not that of the tasks that failed");
            // what the log says about it, up to a crash
            let log = read_log();
            let mut end = log.len();
            if crash > 0 && s + 1 < sessions {
                let c = nd::choose(1 + log.len() - log0, "lost entries");
                if c > 0 {
                    end -= c;
                    cut(end);
                    nd::cover("crash");
                }
            }
            for e in &log[log0..end] {
                if let LogEntry::Header(h) = e {
                    headers += 1;
                    nd::check(h.workflow_key == wf.unwrap_or(fresh), "C28: the log records another key of the workflow");
                    wf = Some(wf.unwrap_or(fresh));
                }
                let at = |key: &str| NAME.iter().position(|n| n == &key).unwrap();
                match e {
                    LogEntry::Ready(r) => {
                        let k = at(&r.key);
                        nd::check((r.runcount, r.storage_root) == plan[k], "C28: the log records another run count or storage root than the task's");
                        known[k] = Some((1, r.runcount, r.storage_root));
                    }
                    LogEntry::Started(x) => {
                        let k = at(&x.key);
                        let (_, c, r) = known[k].unwrap();
                        nd::check(!used.contains(&(k, c)), "C28: two runs of a task have the same run count");
                        used.push((k, c));
                        known[k] = Some((2, c, r));
                    }
                    LogEntry::Finished(x) => {
                        let k = at(&x.key);
                        let (_, c, r) = known[k].unwrap();
                        nd::check((x.status == 0) == w().ok[k], "C28: the log records another result");
                        known[k] = Some((if x.status == 0 { 4 } else { 3 }, c, r));
                    }
                    _ => {}
                }
            }
            nd::log(s, bad as u64);
        }
    });
}

/// the constructor's limits: failures (0: none), runners (negative: the machine's), rerun
#[no_mangle]
pub extern "C" fn h_py_limits(n: u64, delays: u64) {
    let n = n as usize;
    spawner();
    Python::with_gil(|py| {
        let parallel = [-1, 1, 2][nd::choose(3, "runners")];
        let failures = nd::choose(3, "failures allowed") as u32;
        let mut g = new(py, parallel, &[""], failures, None, true).unwrap();
        nd::check(g.key() == "default-key-value", "C28: the default key");
        for k in 0..n {
            add(py, &mut g, k, &format!("t{k}"), vec![], 0).unwrap();
        }
        w().ok = (0..n).map(|_| nd::choose(2, "outcome") == 0).collect();
        w().secs = (0..n).map(|_| 1 + nd::choose(2, "seconds") as u64).collect();
        tokio::sched::budgets(delays as u32, 0, 0);
        let (nf, done) = g.execute(py, None, None, None, 0).unwrap();
        tokio::sched::budgets(0, 0, 0);
        drop(g);
        let want = if parallel < 0 { 3 } else { parallel as usize };
        nd::check(w().peak <= want, "C22: more processes at once than allowed");
        let bad = w().ok.iter().filter(|o| !**o).count() as u32;
        if failures == 0 || bad < failures {
            nd::check(w().runs.len() == n && w().runs.iter().all(|r| r.2.is_some()), "C03: without reaching the limit a task is left out or interrupted");
            nd::check(nf == bad && done.len() == n, "C03,C02: the result of the execution is not that of its tasks");
            nd::check(w().peak == want.min(n), "C22: fewer processes at once than there is room for");
            nd::cover("all run");
        } else {
            nd::check(nf >= failures, "C03: the failures are not counted");
            // the failure that reached the limit
            let mut ends: Vec<u64> = w().runs.iter().filter(|r| !w().ok[r.0]).filter_map(|r| r.2).collect();
            ends.sort();
            let t = ends[failures as usize - 1];
            nd::check(w().runs.iter().all(|r| r.1 <= t), "C03: a task is launched after the limit was reached");
            nd::cover("limit reached");
        }
    });
}

/// a log file of another version of the format is refused, and stays as it is
#[no_mangle]
pub extern "C" fn h_py_version(span: u64) {
    Python::with_gil(|py| {
        let v = nd::choose(span as usize, "version") as u32;
        let sessions = 1 + nd::choose(2, "sessions");
        let mut text = String::new();
        for s in 0..sessions {
            let h = LogEntry::Header(HeaderEntry {
                version: if s == 0 { v } else { LOGFILE_VERSION },
                time: std::time::SystemTime::now(),
                user: "u".into(),
                hostname: "h".into(),
                workflow_key: "wf".into(),
                cmdline: vec![],
                workdir: "/".into(),
                pid: 1,
                storage_roots: vec!["x".into()],
            });
            text += &(serde_json::to_string(&h).unwrap() + "\n");
        }
        nd::fs::put(LOG, text.as_bytes());
        let r = new(py, 1, &[""], 1, keyfn("other"), true);
        if v == LOGFILE_VERSION {
            nd::check(r.is_ok() && r.unwrap().key() == "wf", "C24,C28: a log of this version is refused or taken for a new one");
            nd::cover("accepted");
        } else {
            nd::check(matches!(&r, Err(e) if e.kind == "RuntimeError"), "C24: a log of another version is not refused as such");
            nd::check(nd::fs::get(LOG).unwrap() == text.as_bytes(), "C24: a refused log is changed");
            nd::cover("refused");
        }
        nd::check(w().keyed == 0, "C28: a new key is made for an existing workflow");
    });
}

/// load_logfile and write_logfile: the file's entries, the parts of it, and back
#[no_mangle]
pub extern "C" fn h_py_load(keys: u64, sessions: u64) {
    let keys = keys as usize;
    spawner();
    Python::with_gil(|py| {
        for s in 0..sessions {
            let mut g = new(py, 1, &[""], 0, keyfn("wf"), true).unwrap();
            w().ok = (0..keys).map(|_| nd::choose(2, "outcome") == 0).collect();
            w().secs = vec![0; keys];
            for k in 0..keys {
                if nd::choose(2, "in this session") == 1 {
                    add(py, &mut g, k, NAME[k], vec![], 0).unwrap();
                }
            }
            g.execute(py, None, None, None, 0).unwrap();
        }
        let json = |o: PyObject| match o.val {
            Val::Json(v) => v,
            _ => panic!("not a value"),
        };
        let get = |m: &str| load_logfile(py, LOG.into(), m.into()).map(json);
        let all = get("all").unwrap();
        let log = read_log();
        nd::check(all == serde_json::to_value(&log).unwrap(), "C07: the log as loaded is not the log");
        let both = get("current,outdated").unwrap();
        let (cur, old) = (get("current").unwrap(), get("outdated").unwrap());
        nd::check(both[0] == cur && both[1] == old, "C07: the parts of the log differ when loaded together");
        let (c, o) = LogFileSnapshotReader::open(LOG.into()).unwrap().read_current_and_outdated().unwrap();
        nd::check(cur == serde_json::to_value(&c).unwrap(), "C07: the current part of the log as loaded is another");
        nd::check(old == serde_json::to_value(&o).unwrap(), "C07: the outdated part of the log as loaded is another");
        nd::check(matches!(get("none"), Err(e) if e.kind == "ValueError"), "C07: an unknown part of the log is loaded");
        nd::check(load_logfile(py, "/ndfs/absent".into(), "all".into()).is_err(), "C07: a missing log is loaded");
        // written elsewhere it is the same log
        let v = PyAny(Val::Json(all.clone()));
        if write_logfile("/ndfs/copy.log".into(), &v).is_err() {
            nd::fail("C06: a valid log cannot be written again");
            return;
        }
        let again = load_logfile(py, "/ndfs/copy.log".into(), "all".into()).map(json).unwrap();
        nd::check(again == all, "C06: a log written again is another");
        let results = |p: &str| -> Vec<(bool, bool)> {
            let l = LogFile::<LogFileRW>::new(p).unwrap();
            (0..keys).map(|k| (l.has_success(NAME[k]), l.has_failure(NAME[k]))).collect()
        };
        nd::check(results(LOG) == results("/ndfs/copy.log"), "C06: a log written again has other results");
        nd::log(1, log.len() as u64);
        nd::cover("loaded");
    });
}

/// bad dependencies and ids are refused, and what was added is unharmed
#[no_mangle]
pub extern "C" fn h_py_tasks(n: u64, span: u64) {
    let n = n as usize;
    spawner();
    Python::with_gil(|py| {
        let mut g = new(py, 1, &[""], 0, None, true).unwrap();
        let mut deps: Vec<Vec<u32>> = vec![];
        for i in 0..n {
            let d = nd::choose(1 + span as usize, "dependency");
            let r = if d == 0 { vec![] } else { vec![[0, 1, 2, 0xffff_ffff][d - 1]] };
            let valid = r.iter().all(|&x| (x as usize) < deps.len());
            let res = add(py, &mut g, deps.len(), &format!("t{}", deps.len()), r.clone(), 0);
            if valid {
                nd::check(matches!(res, Ok(x) if x as usize == deps.len()), "C21: a task is refused or gets another id");
                deps.push(r);
                nd::cover("accepted");
            } else {
                nd::check(matches!(&res, Err(e) if e.kind == "IndexError"), "C21: a dependency on an unknown task is accepted");
                nd::cover("refused");
            }
            nd::check(g.ntasks() == deps.len(), "C21: the number of tasks is not that of the accepted ones");
        }
        let id = nd::u32("id");
        match g.get_task(py, id) {
            Err(e) => nd::check(id as usize >= deps.len() && e.kind == "IndexError", "C21: a task is not found"),
            Ok(PyTuple(t)) => {
                nd::check((id as usize) < deps.len(), "C21: a task is found that does not exist");
                let i = (0..deps.len()).find(|&i| i == id as usize).unwrap_or(0);
                nd::check(matches!(&t[1].val, Val::Str(s) if s == &format!("t{i}")) && matches!(&t[2].val, Val::Str(s) if s == &format!("task {i}")), "C21: another task is found");
                nd::check(matches!(&t[0].val, Val::Strs(s) if s.len() == 2 && s[1].to_str() == Some(&i.to_string()[..])), "C21: another task's command is found");
                nd::cover("found");
            }
        }
        w().ok = vec![true; n];
        w().secs = vec![0; n];
        let r = g.execute(py, None, None, None, 0).unwrap();
        nd::check(r.0 == 0 && r.1.len() == deps.len() && w().runs.len() == deps.len(), "C21: not exactly the accepted tasks are run");
    });
}

fn preamble(_: *const std::ffi::c_void, _: u32, _: u32, _: u32, _: u64) -> i32 {
    w().pre += 1;
    0
}
fn postamble(ctx: *const std::ffi::c_void, success: u32, runcount: u32, _lost: u32, n: u64) -> i32 {
    w().post += 1;
    let i = ctx as usize - 1;
    nd::check((success != 0) == w().ok[i], "C26: the postamble is told another result");
    nd::check(runcount == w().secs[i] as u32, "C26,C28: the postamble is told another run count");
    nd::check(n == 1, "C26: the postamble is told another number of tasks");
    0
}
/// everything add_task takes reaches the process: command, input, queue; and the callbacks are called with the run count
#[no_mangle]
pub extern "C" fn h_py_args(sessions: u64, len: u64) {
    *tokio::pipe::CAPACITY.get() = 2;
    tokio::process::set_spawner(|mut rq| {
        let i: usize = rq.args[0].to_str().unwrap().parse().unwrap();
        nd::check(rq.program.to_str() == Some("run") && rq.args.len() == 1, "C28: the command is not the one given");
        nd::check(w().pre == 1 && w().post == 0, "C26: the preamble is not called before the task");
        w().runs.push((rq.out as usize, 0, None));
        Ok(Box::pin(async move {
            let want = w().input[i].clone();
            let fds: Vec<i32> = rq.read_fds.keys().copied().collect();
            nd::check(fds == want.iter().map(|x| x.0).collect::<Vec<_>>(), "C18: the input is not at the descriptor asked for");
            if let Some((fd, bytes)) = want {
                let mut got = vec![];
                let _ = tokio::io::AsyncReadExt::read_to_end(rq.read_fds.get_mut(&fd).unwrap(), &mut got).await;
                nd::check(got == bytes, "C18: the input is not the one given");
                nd::cover("input");
            }
            // more than the pipe holds
            let told = tokio::io::AsyncWriteExt::write_all(rq.write_fds.get_mut(&3).unwrap(), b"a=b\n").await;
            nd::check(told.is_ok(), "C18: a task cannot write its values");
            if w().ok[i] { 0 } else { 1 << 8 }
        }))
    });
    Python::with_gil(|py| {
        let mut count = 0;
        for s in 0..sessions {
            let mut g = new(py, 1, &[""], 0, None, true).unwrap();
            let input = match nd::choose(3, "input") {
                0 => None,
                k => Some(([0, 7][k - 1], (0..len).map(|_| nd::u8("byte")).collect::<Vec<u8>>())),
            };
            let console = nd::choose(2, "console") as u64;
            let ok = nd::choose(2, "outcome") == 0;
            *w() = W { ok: vec![ok], secs: vec![count], input: vec![input.clone()], ..W::default() };
            let call = |f: fn(*const std::ffi::c_void, u32, u32, u32, u64) -> i32| Some(PyObject::capsule(f as *mut std::ffi::c_void, 1 as *mut std::ffi::c_void));
            let give = input.as_ref().map(|(fd, b)| (*fd, pyo3::types::PyBytes::new(py, b)));
            g.add_task(vec!["run".into(), "0".into()], "k".into(), vec![], None, 1 << console, give, call(preamble), call(postamble), 0).unwrap();
            let (nf, done) = g.execute(py, None, None, None, 0).unwrap();
            nd::check(nf == !ok as u32 && done == ["k"], "C28: the task's result is not returned");
            nd::check(w().pre == 1 && w().post == 1, "C26: a callback is missing or called again");
            nd::cover(if console > 0 { "console" } else { "local" });
            if ok {
                break;
            }
            count += 1;
        }
    });
}

/// what is printed: one line for each task that ended and then its output, the same on the console and in the log.txt next
/// to the session's log, however the console takes it
#[no_mangle]
pub extern "C" fn h_py_print(n: u64, sessions: u64, opts: u64, shorts: u64, delays: u64) {
    let n = n as usize;
    let apart = opts & 1;
    let limit = (opts >> 1) as u32;
    struct P {
        out: Vec<String>,
        err: Vec<String>,
    }
    static P: Cell0<Option<P>> = Cell0::new(None);
    tokio::process::set_spawner(|mut rq| {
        let i: usize = rq.args[0].to_str().unwrap().parse().unwrap();
        w().runs.push((i, env::now_ns(), None));
        Ok(Box::pin(async move {
            let p = P.get().as_ref().unwrap();
            for (to, text) in [(&mut rq.stdout, &p.out[i]), (&mut rq.stderr, &p.err[i])] {
                let _ = tokio::io::AsyncWriteExt::write_all(to.as_mut().unwrap(), text.as_bytes()).await;
                *to = None;
            }
            let s = w().secs[i];
            if s > 0 {
                tokio::time::sleep(std::time::Duration::from_secs(s)).await;
            }
            if w().ok[i] { 0 } else { 1 << 8 }
        }))
    });
    let con = grep_cli::console();
    con.tty = nd::choose(2, "terminal") == 1;
    // as the module does when it is loaded
    crate::logging::init_logging(None).unwrap();
    let mut files: Vec<Vec<u8>> = vec![];
    Python::with_gil(|py| {
        for s in 0..sessions as usize {
            let at = if apart > 0 { s } else { 0 };
            let (log, mirror) = (format!("/ndfs/s{at}-w.log"), "/ndfs/log.txt");
            let (log, mirror) = if apart > 0 { (format!("/ndfs/s{at}/w.log"), format!("/ndfs/s{at}/log.txt")) } else { (log, mirror.to_string()) };
            let old = nd::fs::get(&mirror).unwrap_or_default();
            let others: Vec<Option<Vec<u8>>> = (0..s).map(|k| nd::fs::get(&format!("/ndfs/s{k}/log.txt"))).collect();
            let mut g = PyExecGraph::new(py, 2, log.clone().into(), vec!["r".into()], limit, None, true).unwrap();
            let mut before = 0;
            let mut chained = false;
            let mut ended: Vec<usize> = vec![];
            for round in 0..2 {
                // two executions of one session: the count goes on
                let (from, to) = if round == 0 { (0, n) } else { (n, n + 1) };
                if round == 1 && nd::choose(2, "second execution") == 0 {
                    break;
                }
                for k in from..to {
                    let deps = if k == 1 && nd::choose(2, "dependency") == 1 { vec![0] } else { vec![] };
                    chained |= deps.len() > 0;
                    g.add_task(vec!["run".into(), k.to_string().into()], format!("s{s}t{k}"), deps, Some(format!("task {k}")), 1, None, None, None, 0).unwrap();
                }
                let text = |k: usize, kind: usize, c: char| match kind {
                    0 => String::new(),
                    1 => format!("  {c}{k} \u{e9}\n\n"),
                    _ => format!("first {c}{k}\n{}", c.to_string().repeat(1100)),
                };
                if round == 0 {
                    w().ok.clear();
                    w().secs.clear();
                    *P.get() = Some(P { out: vec![], err: vec![] });
                }
                for k in from..to {
                    w().ok.push(nd::choose(2, "outcome") == 0);
                    w().secs.push(if k == 0 { [0, 6][nd::choose(2, "seconds")] } else { 0 });
                    let p = P.get().as_mut().unwrap();
                    p.out.push(text(k, if k == 0 { nd::choose(3, "output") } else { 1 }, 'o'));
                    p.err.push(text(k, if k == 0 { nd::choose(2, "errors") } else { 0 }, 'e'));
                }
                let seen = grep_cli::console().seen.len();
                grep_cli::console().shorts = shorts as u32;
                tokio::sched::budgets(delays as u32, 0, 0);
                let r = g.execute(py, None, None, None, 0);
                tokio::sched::budgets(0, 0, 0);
                grep_cli::console().shorts = 0;
                let (nf, done) = match r {
                    Ok(r) => r,
                    Err(_) => {
                        nd::fail("C29: what is printed makes the execution fail");
                        return;
                    }
                };
                let got = strip(&grep_cli::console().seen[seen..]);
                let mut at = 0;
                // those of an earlier execution that were not started and still can be, and the new ones
                let todo = (0..to).filter(|k| !ended.contains(k) && !(*k == 1 && chained && ended.contains(&0) && !w().ok[0])).count();
                let mut ending = false;
                let mut fizzled = 0;
                                for (c, key) in done.iter().enumerate() {
                    let k = (0..to).find(|k| &format!("s{s}t{k}") == key).unwrap();
                    let line = got[at..].find('\n').map(|e| &got[at..at + e]).unwrap_or("");
                    if ending {
                        // only the lines of those that succeed
                        nd::cover("shutting down");
                        if line == format!("[{}/{}] task {k}", before + c + 1, before + todo) {
                            nd::check(w().ok[k], "C29: a failed task is shown as finished");
                            at += (line.len() + 1).min(got.len() - at);
                        } else {
                            // one that could have succeeded may have been stopped before
                            w().ok[k] = false;
                        }
                        continue;
                    }
                    at += (line.len() + 1).min(got.len() - at);
                    if w().ok[k] {
                        let c = before + c + 1;
                        nd::check(line == format!("[{c}/{}] task {k}", before + todo), "C29: the line for a finished task is not there or counts wrongly");
                        nd::cover("finished");
                    } else {
                        let kind = if w().secs[k] < 5 { "FIZZLED" } else { "FAILED" };
                        fizzled += (kind == "FIZZLED") as u32;
                        ending = fizzled == limit;
                        nd::check(line.contains(kind) && line.contains(&format!("{key}.")) && line.ends_with(&format!(" task {k}")), "C29: the line for a failed task is not there or names it wrongly");
                        nd::cover(kind);
                    }
                    let p = P.get().as_ref().unwrap();
                    let text = format!("{}{}", p.out[k], p.err[k]);
                    nd::check(got[at..].starts_with(&text), "C29: what a task wrote is not printed as it is after its line");
                    at += text.len().min(got.len() - at);
                    if text.len() > 1000 {
                        nd::cover("long output");
                    }
                }
                nd::check(at == got.len(), "C29: more is printed than the tasks that ended");
                // the file: what was there, and the same again
                let file = nd::fs::get(&mirror).unwrap_or_default();
                let mut both = old.clone();
                both.extend_from_slice(&grep_cli::console().seen[files.iter().map(|f| f.len()).sum::<usize>()..]);
                nd::check(file == both, "C29: the log.txt of the session is not what the console got");
                before += done.len();
                ended.extend(done.iter().map(|key| (0..to).find(|k| &format!("s{s}t{k}") == key).unwrap()));
            }
            for (k, f) in others.iter().enumerate() {
                nd::check(apart == 0 || &nd::fs::get(&format!("/ndfs/s{k}/log.txt")) == f, "C29: a session writes to the log.txt of another one");
            }
            let all: usize = files.iter().map(|f| f.len()).sum();
            files.push(grep_cli::console().seen[all..].to_vec());
            nd::log(s as u64, files[s].len() as u64);
        }
    });
}
/// without the colors
fn strip(b: &[u8]) -> String {
    let mut s = String::new();
    let mut skip = false;
    for c in std::str::from_utf8(b).unwrap().chars() {
        if c == '\x1b' {
            skip = true;
        } else if !skip {
            s.push(c);
        } else if c == 'm' {
            skip = false;
        }
    }
    s
}
