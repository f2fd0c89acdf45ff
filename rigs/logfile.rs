// The log file: what survives reopening, crashes and concurrent sessions.
//@main
use crate::logfile2::*;
use nd::env::Cell0;
use std::collections::HashMap;

const LOG: &str = "/ndfs/w.log";
fn header(key: &str, version: u32, roots: usize) -> LogEntry {
    LogEntry::Header(HeaderEntry {
        version,
        time: std::time::SystemTime::now(),
        user: "u".into(),
        hostname: "h".into(),
        workflow_key: key.into(),
        cmdline: vec![],
        workdir: "/".into(),
        pid: 1,
        storage_roots: (0..roots).map(|i| format!("r{i}").into()).collect(),
    })
}
fn open() -> Option<LogFile<LogFileRW>> {
    LogFile::<LogFileRW>::new(LOG).ok()
}
/// what is known of a key: (stage 1 ready, 2 started, 3 finished; run count; storage root; success)
type Known = HashMap<usize, (u8, u32, u32, bool)>;
fn key(k: usize) -> String {
    ["k", "k0", "é"][k].into()
}
fn same(l: &LogFile<LogFileRW>, want: &Known, keys: usize) -> bool {
    (0..keys).all(|k| {
        let w = want.get(&k).copied();
        let got = l.runcount(&key(k)).map(|r| match r {
            RuncountStatus::Ready { runcount, storage_root } => (1, runcount, storage_root, false),
            RuncountStatus::Started { runcount, storage_root } => (2, runcount, storage_root, false),
            RuncountStatus::Finished { runcount, storage_root, success } => (3, runcount, storage_root, success),
        });
        got == w && l.has_success(&key(k)) == matches!(w, Some((3, _, _, true))) && l.has_failure(&key(k)) == matches!(w, Some((3, _, _, false)))
    })
}
/// one arbitrary legal step of a history; None: end the session
fn step(known: &mut Known, keys: usize) -> Option<LogEntry> {
    let c = nd::choose(1 + 2 * keys, "step");
    if c == 0 {
        return None;
    }
    let k = (c - 1) / 2;
    let s = known.get(&k).copied();
    Some(match (s, (c - 1) % 2) {
        (Some((1, rc, root, _)), 0) => {
            known.insert(k, (2, rc, root, false));
            LogEntry::new_started(&key(k), "h", 7, "".into())
        }
        (Some((2, rc, root, _)), 0) => {
            let status = [0, 1, -10][nd::choose(3, "status")];
            known.insert(k, (3, rc, root, status == 0));
            LogEntry::new_finished(&key(k), status, vec![])
        }
        (_, 0) => LogEntry::new_backref(&key(k)),
        _ => {
            let rc = s.map(|s| s.1 + 1).unwrap_or(0);
            let root = [0, 6][nd::choose(2, "root")];
            known.insert(k, (1, rc, root, false));
            LogEntry::new_ready(&key(k), rc, "run é", root)
        }
    })
}

/// any history of entries and sessions: reopening gives back what the entries say
#[no_mangle]
pub extern "C" fn h_history(steps: u64, keys: u64) {
    let keys = keys as usize;
    let mut known = Known::new();
    let mut l = open().unwrap();
    l.write(header("wf", LOGFILE_VERSION, 2)).unwrap();
    let mut n = 1;
    for _ in 0..steps {
        match step(&mut known, keys) {
            Some(e) => {
                l.write(e).unwrap();
                n += 1;
                nd::check(same(&l, &known, keys), "C06: the open log does not know what was written");
            }
            None => {
                drop(l);
                let Some(x) = open() else {
                    nd::fail("C06: a log cannot be reopened");
                    return;
                };
                l = x;
                nd::check(same(&l, &known, keys), "C06: a reopened log does not say what was written");
                nd::check(l.workflow_key().as_deref() == Some("wf"), "C06: the workflow key is lost");
                nd::check(l.storage_root(1) == Some("/ndfs/r1".into()) && l.storage_root(2).is_none(), "C06: the storage roots are lost");
                l.write(header("wf", LOGFILE_VERSION, 2)).unwrap();
                n += 1;
                nd::cover("reopened");
            }
        }
    }
    let via_flush = nd::choose(2, "flush only") == 1;
    if via_flush {
        l.flush().unwrap();
        let m = LogFileSnapshotReader::open(LOG.into()).unwrap().read().unwrap().len();
        nd::check(m == n, "C06: flushed entries are not in the file");
        std::mem::forget(l);
        nd::fs::crash();
    } else {
        drop(l);
    }
    let Some(l) = open() else {
        nd::fail("C06: a log cannot be reopened");
        return;
    };
    nd::check(same(&l, &known, keys), "C06: a reopened log does not say what was written");
    drop(l);
    let m = LogFileSnapshotReader::open(LOG.into()).unwrap().read().unwrap().len();
    nd::check(m == n, "C06: entries are lost from the file");
    nd::log(1, n as u64);
}

/// a crash cuts the file at any byte; the rest is known, and work goes on
#[no_mangle]
pub extern "C" fn h_crash(steps: u64, keys: u64) {
    let keys = keys as usize;
    let mut known = Known::new();
    let mut l = open().unwrap();
    // what is known after each complete line
    let mut after = vec![Known::new()];
    l.write(header("wf", LOGFILE_VERSION, 1)).unwrap();
    after.push(Known::new());
    for _ in 0..steps {
        match step(&mut known, keys) {
            Some(e) => l.write(e).unwrap(),
            None => {
                drop(l);
                l = open().unwrap();
                l.write(header("wf", LOGFILE_VERSION, 1)).unwrap();
            }
        }
        after.push(known.clone());
    }
    l.flush().unwrap();
    std::mem::forget(l);
    nd::fs::crash();
    let data = nd::fs::get(LOG).unwrap();
    let cut = nd::choose(data.len() + 1, "cut");
    nd::fs::put(LOG, &data[..cut]);
    let lines = data[..cut].iter().filter(|&&c| c == b'\n').count();
    let whole = cut > 0 && data[cut - 1] != b'\n' && cut < data.len() && data[cut] == b'\n';
    nd::cover(if cut == 0 || data[cut - 1] == b'\n' { "cut between entries" } else if whole { "cut before the newline" } else { "cut inside an entry" });
    // readers cope with the torn end
    match LogFileSnapshotReader::open(LOG.into()).unwrap().read() {
        Ok(v) => nd::check(v.len() == lines || (whole && v.len() == lines + 1), "C06: a reader of a cut log does not see the complete entries"),
        Err(_) => nd::fail("C06: a cut log cannot be read"),
    }
    let Some(mut l) = open() else {
        nd::fail("C06: a log cut by a crash cannot be reopened");
        return;
    };
    let extra = whole && same(&l, &after[lines + 1], keys);
    nd::check(extra || same(&l, &after[lines], keys), "C06: after a crash the log does not know what had been recorded");
    let mut known = if extra { after[lines + 1].clone() } else { after[lines].clone() };
    l.write(header("wf", LOGFILE_VERSION, 1)).unwrap();
    l.write(LogEntry::new_ready(&key(0), 9, "x", 0)).unwrap();
    known.insert(0, (1, 9, 0, false));
    let more = nd::choose(2, "started") == 1;
    if more {
        l.write(LogEntry::new_started(&key(0), "h", 1, "".into())).unwrap();
        known.insert(0, (2, 9, 0, false));
    }
    drop(l);
    let Some(l) = open() else {
        nd::fail("C06: a log continued after a crash cannot be reopened");
        return;
    };
    nd::check(same(&l, &known, keys), "C06: a log continued after a crash loses entries");
    let v = LogFileSnapshotReader::open(LOG.into()).unwrap().read().unwrap();
    let min = lines + 2 + more as usize;
    nd::check(v.len() == min || (whole && v.len() == min + 1), "C06: a log continued after a crash loses entries");
    nd::log(1, cut as u64);
}

/// every field of every kind of entry comes back as written
#[no_mangle]
pub extern "C" fn h_entry(kind: u64, len: u64) {
    const CH: [char; 10] = ['a', '"', '\\', '\n', '\u{1}', 'é', '\u{2028}', '\u{10ffff}', '/', '\r'];
    let s = |n: &str| -> String { (0..len).map(|_| CH[nd::choose(CH.len(), n)]).collect() };
    let num = |n: &str| [0u32, 1, 12, 4294967295][nd::choose(4, n)];
    let (a, b) = (s("a"), s("b"));
    let e = match kind {
        0 => LogEntry::Header(HeaderEntry {
            version: LOGFILE_VERSION,
            time: std::time::SystemTime::now(),
            user: a.clone(),
            hostname: "h".into(),
            workflow_key: b.clone(),
            cmdline: vec![a.clone(), b.clone()],
            workdir: b.clone(),
            pid: 5,
            storage_roots: vec![a.clone().into()],
        }),
        1 => LogEntry::new_ready(&a, 3, &b, 2),
        2 => LogEntry::new_started(&a, &b, 4, b.clone()),
        3 => LogEntry::new_finished(&a, [0, 1, -1, i32::MIN][nd::choose(4, "status")], vec![std::iter::once((b.clone(), a.clone())).collect(), HashMap::new()]),
        _ => LogEntry::new_backref(&a),
    };
    let want = format!("{e:?}");
    let mut l = open().unwrap();
    if kind != 0 {
        l.write(header("wf", LOGFILE_VERSION, 1)).unwrap();
    }
    if kind >= 2 {
        l.write(LogEntry::new_ready(&a, num("runcount"), "c", 1)).unwrap();
    }
    if kind == 3 {
        l.write(LogEntry::new_started(&a, "h", 1, "".into())).unwrap();
    }
    l.write(e).unwrap();
    drop(l);
    let v = LogFileSnapshotReader::open(LOG.into()).unwrap().read().unwrap();
    nd::check(v.last().map(|e| format!("{e:?}")) == Some(want), "C06: an entry is not read back as it was written");
    let Some(l) = open() else {
        nd::fail("C06: a log cannot be reopened");
        return;
    };
    if kind == 3 {
        nd::check(l.has_success(&a) || l.has_failure(&a), "C06: an entry is not read back as it was written");
    }
    nd::cover("entry");
}

type Slot = Cell0<[Option<LogFile<LogFileRW>>; 3]>;
static OWNERS: Slot = Cell0::new([None, None, None]);
fn owners() -> usize {
    OWNERS.get().iter().filter(|o| o.is_some()).count()
}
fn act(who: usize, what: usize) {
    match what {
        0 => {
            if OWNERS.get()[who].is_none() {
                let l = open();
                let ok = l.is_some();
                OWNERS.get()[who] = l;
                if ok {
                    nd::cover("opened");
                    if let Some(l) = OWNERS.get()[who].as_mut() {
                        let n = l.runcount("c").map(|r| if let RuncountStatus::Ready { runcount, .. } = r { runcount } else { 0 }).unwrap_or(0);
                        l.write(header("wf", LOGFILE_VERSION, 1)).unwrap();
                        l.write(LogEntry::new_ready("c", n + 1, "", 0)).unwrap();
                        *WRITES.get() += 1;
                        nd::check(n + 1 == *WRITES.get(), "C24: a session does not see what the session before it wrote");
                    }
                } else {
                    nd::cover("refused");
                }
            }
        }
        _ => {
            let l = OWNERS.get()[who].take();
            drop(l);
        }
    }
}
static WRITES: Cell0<u32> = Cell0::new(0);
static BUSY: Cell0<[bool; 3]> = Cell0::new([false; 3]);
/// three sessions open and close the log; at any operation on the files another one may run
fn acts(n: usize, nested: usize) {
    for _ in 0..n {
        // the first to act is called 0
        let fresh = *WRITES.get() == 0 && nested > 0 && !BUSY.get()[0];
        let who = nd::choose(if fresh { 1 } else { 3 }, "who");
        if BUSY.get()[who] {
            continue;
        }
        BUSY.get()[who] = true;
        let what = OWNERS.get()[who].is_some() as usize;
        if nested > 0 {
            let mut used = false;
            nd::fs::set_hook(Some(Box::new(move |op| {
                if !used && nd::choose(2, "switch") == 1 {
                    used = true;
                    nd::fs::set_hook(None);
                    acts(2, nested - 1);
                }
            })));
        }
        act(who, what);
        nd::fs::set_hook(None);
        BUSY.get()[who] = false;
        nd::check(owners() <= 1, "C24: two sessions own the log at the same time");
        nd::log(who as u64, owners() as u64);
    }
}
#[no_mangle]
pub extern "C" fn h_lock(n: u64, nested: u64) {
    acts(n as usize, nested as usize);
    for i in 0..3 {
        OWNERS.get()[i] = None;
    }
    nd::check(open().is_some(), "C24: a log that nobody has open cannot be opened");
}
/// a session's process dies: its lock does not stay
#[no_mangle]
pub extern "C" fn h_died() {
    let mut l = open().unwrap();
    l.write(header("wf", LOGFILE_VERSION, 1)).unwrap();
    if nd::choose(2, "flush") == 1 {
        l.flush().unwrap();
    }
    nd::check(open().is_none(), "C24: two sessions own the log at the same time");
    std::mem::forget(l);
    nd::fs::crash();
    nd::check(open().is_some(), "C24: a log whose session died cannot be opened");
    nd::cover("died");
}
/// foreign and old logs are refused and stay as they are
#[no_mangle]
pub extern "C" fn h_foreign(n: u64) {
    let mut data = vec![];
    let mut ok = true;
    let mut first: Option<usize> = None;
    for _ in 0..n {
        match nd::choose(3, "entry") {
            0 => {
                let k = nd::choose(3, "key");
                let v = [LOGFILE_VERSION, LOGFILE_VERSION - 1, LOGFILE_VERSION + 1, 0, u32::MAX][nd::choose(5, "version")];
                ok &= v == LOGFILE_VERSION && first.map(|f| f == k).unwrap_or(true);
                first = first.or(Some(k));
                data.extend(serde_json::to_vec(&header(["wf", "wf2", ""][k], v, 1)).unwrap());
            }
            1 => data.extend(serde_json::to_vec(&LogEntry::new_ready("k", 1, "c", 0)).unwrap()),
            _ => data.extend(serde_json::to_vec(&LogEntry::new_backref("k")).unwrap()),
        }
        data.push(b'\n');
    }
    nd::fs::put(LOG, &data);
    let l = open();
    nd::check(l.is_some() == ok, if ok { "C24: a proper log is refused" } else { "C24: a foreign or old log is accepted" });
    nd::cover(if ok { "accepted" } else { "foreign" });
    if let Some(l) = &l {
        nd::check(l.workflow_key().as_deref() == first.map(|k| ["wf", "wf2", ""][k]), "C24: the workflow key is not that of the log");
    }
    let was = l.is_some();
    drop(l);
    nd::check(nd::fs::get(LOG).unwrap() == data, "C24: a log is changed by opening it");
    nd::check(open().is_some() == was, "C24: a log that nobody has open cannot be opened");
}
