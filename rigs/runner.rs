// The local runner: what a child process gets as input, and what becomes of its output and exit status.
//@main
use crate::execgraph::{Cmd, ExecGraph};
use crate::localrunner::*;
use crate::logfile2::*;
use crate::sync::ExitStatus;
use bitvec::array::BitArray;
use nd::env::{self, Cell0};
use std::collections::HashMap;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::process::{Command, Stdio};
use tokio::sched;
use tokio_command_fds::{CommandFdExt, FdMapping};
use std::os::unix::io::AsRawFd;

fn status() -> (i32, i32) {
    if nd::choose(2, "killed") == 1 {
        let s = nd::below(64, "signal") as i32;
        nd::assume(s >= 1);
        // with or without a core dump
        (s | (nd::below(2, "core") as i32) << 7, -s)
    } else {
        let c = nd::u8("code") as i32;
        (c << 8, c)
    }
}
fn bytes(n: usize, name: &str) -> Vec<u8> {
    (0..n).map(|_| nd::u8(name)).collect()
}
async fn put<W: AsyncWriteExt + Unpin>(w: &mut Option<W>, b: &[u8], chunk: usize) {
    if let Some(w) = w {
        for c in b.chunks(chunk.max(1)) {
            let _ = w.write_all(c).await;
            tokio::task::yield_now().await;
        }
    }
}

/// everything a child writes to stdout, stderr and fd3, in any order and in pieces larger than the pipes,
/// is collected, and its wait status is translated
#[no_mangle]
pub extern "C" fn h_output(a: u64, b: u64, c: u64, cap: u64, delays: u64) {
    *tokio::pipe::CAPACITY.get() = cap as usize;
    let (o, e, v) = (bytes(a as usize, "out"), bytes(b as usize, "err"), bytes(c as usize, "fd3"));
    let (raw, want) = status();
    let order = nd::choose(6, "order");
    let chunk = 1 + nd::choose(3, "chunk");
    let early = nd::choose(2, "exit while the pipes are open") == 1;
    let (o2, e2, v2) = (o.clone(), e.clone(), v.clone());
    let data = Cell0::new(Some((o2, e2, v2)));
    tokio::process::set_spawner(move |mut rq| {
        let (o, e, v) = data.get().take().unwrap();
        Ok(Box::pin(async move {
            let mut so = rq.stdout.take();
            let mut se = rq.stderr.take();
            let mut s3 = rq.write_fds.remove(&3);
            let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
            if early {
                // the child leaves the writing to a grandchild that inherited the pipes
                tokio::task::spawn_named("grandchild", async move {
                    for p in perm {
                        match p {
                            0 => put(&mut so, &o, chunk).await,
                            1 => put(&mut se, &e, chunk).await,
                            _ => put(&mut s3, &v, chunk).await,
                        }
                    }
                });
                return raw;
            }
            for p in perm {
                match p {
                    0 => put(&mut so, &o, chunk).await,
                    1 => put(&mut se, &e, chunk).await,
                    _ => put(&mut s3, &v, chunk).await,
                }
            }
            raw
        }))
    });
    sched::budgets(delays as u32, 0, 0);
    let (r, w) = tokio::pipe::pipe();
    let child = Command::new("x")
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .fd_mappings(vec![FdMapping { parent_fd: w.as_raw_fd(), child_fd: 3 }])
        .unwrap()
        .spawn()
        .unwrap();
    drop(w);
    let res = tokio::rt::try_block_on(wait_with_output(child, r));
    let Ok(res) = res else {
        nd::fail("waiting for the child does not end");
        return;
    };
    let out = match res {
        Ok(o) => o,
        Err(_) => {
            nd::fail("waiting for the child fails");
            return;
        }
    };
    nd::check(out.stdout == o, "stdout is not what the child wrote");
    nd::check(out.stderr == e, "stderr is not what the child wrote");
    nd::check(out.fd3bytes == v, "fd3 is not what the child wrote");
    let ev = ExitStatusOf(out.code());
    nd::check(ev == want, "the exit status is not the child's");
    nd::cover(if want == 0 { "exit 0" } else if want > 0 { "exit code" } else { "signal" });
    nd::log(1, out.stdout.len() as u64);
}
/// as text, only the bytes of an output that are not UTF-8 are replaced
#[no_mangle]
pub extern "C" fn h_text(n: u64) {
    let mut b: Vec<u8> = (0..n).map(|_| b"a\n\xc3\xa9\xe2\x82\xff"[nd::choose(7, "byte")]).collect();
    let err = nd::choose(2, "to stderr") == 1;
    let (o, e) = if err { (b"out".to_vec(), std::mem::take(&mut b)) } else { (std::mem::take(&mut b), b"err".to_vec()) };
    let data = Cell0::new(Some((o.clone(), e.clone())));
    tokio::process::set_spawner(move |mut rq| {
        let (o, e) = data.get().take().unwrap();
        Ok(Box::pin(async move {
            put(&mut rq.stdout, &o, 99).await;
            put(&mut rq.stderr, &e, 99).await;
            0
        }))
    });
    let (r, w) = tokio::pipe::pipe();
    let child = Command::new("x")
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .fd_mappings(vec![FdMapping { parent_fd: w.as_raw_fd(), child_fd: 3 }])
        .unwrap()
        .spawn()
        .unwrap();
    drop(w);
    let Ok(Ok(out)) = tokio::rt::try_block_on(wait_with_output(child, r)) else {
        nd::fail("waiting for the child fails");
        return;
    };
    let (so, se) = (String::from_utf8_lossy(&o), String::from_utf8_lossy(&e));
    nd::check(out.stdout_str() == so && out.stderr_str() == se, "the text of the output is not what the child wrote");
    nd::cover(if so.as_bytes() == o && se.as_bytes() == e { "text" } else { "not UTF-8" });
    nd::log(1, (so.len() + se.len()) as u64);
}
#[allow(non_snake_case)]
fn ExitStatusOf(s: ExitStatus) -> i32 {
    s.as_i32()
}

const ALPHABET: [u8; 8] = *b"a=b\n '\"\\";
/// an independent reading of the fd3 format: lines of shell words, `k=v` words are kept, lines that
/// are not well-formed are dropped
fn reference(b: &[u8]) -> Vec<HashMap<String, String>> {
    let mut out = vec![];
    let mut lines: Vec<&[u8]> = b.split(|&c| c == b'\n').collect();
    if lines.last() == Some(&&b[b.len()..]) {
        lines.pop();
    }
    'line: for l in lines {
        let mut words: Vec<Vec<u8>> = vec![];
        let mut cur: Option<Vec<u8>> = None;
        let mut i = 0;
        while i < l.len() {
            match l[i] {
                b' ' => {
                    words.extend(cur.take());
                }
                b'\\' => {
                    i += 1;
                    let c = cur.get_or_insert_with(Vec::new);
                    if i == l.len() {
                        c.push(b'\\');
                    } else {
                        c.push(l[i]);
                    }
                }
                b'\'' => {
                    let c = cur.get_or_insert_with(Vec::new);
                    i += 1;
                    loop {
                        if i >= l.len() {
                            continue 'line;
                        }
                        if l[i] == b'\'' {
                            break;
                        }
                        c.push(l[i]);
                        i += 1;
                    }
                }
                b'"' => {
                    let c = cur.get_or_insert_with(Vec::new);
                    i += 1;
                    loop {
                        if i >= l.len() {
                            continue 'line;
                        }
                        if l[i] == b'"' {
                            break;
                        }
                        if l[i] == b'\\' {
                            i += 1;
                            if i >= l.len() {
                                continue 'line;
                            }
                            if l[i] != b'"' && l[i] != b'\\' && l[i] != b'$' && l[i] != b'`' {
                                c.push(b'\\');
                            }
                        }
                        c.push(l[i]);
                        i += 1;
                    }
                }
                x => cur.get_or_insert_with(Vec::new).push(x),
            }
            i += 1;
        }
        words.extend(cur);
        let mut m = HashMap::new();
        for w in words {
            if let Some(p) = w.iter().position(|&c| c == b'=') {
                m.insert(String::from_utf8(w[..p].to_vec()).unwrap(), String::from_utf8(w[p + 1..].to_vec()).unwrap());
            }
        }
        out.push(m);
    }
    out
}
/// the values reported on fd3, for every text of length n over the characters that matter
#[no_mangle]
pub extern "C" fn h_values(n: u64) {
    let b: Vec<u8> = (0..n).map(|_| ALPHABET[nd::choose(ALPHABET.len(), "char")]).collect();
    let want = reference(&b);
    let out = ChildOutput { status: std::os::unix::process::ExitStatusExt::from_raw(0), stdout: vec![], stderr: vec![], fd3bytes: b };
    let got = out.fd3_values();
    nd::log(1, got.len() as u64);
    nd::check(got == want, "the values are not those written to fd3");
    nd::cover(if want.iter().any(|m| !m.is_empty()) { "values" } else { "no values" });
}

/// the input of a task reaches its process completely, whatever the process does with it; and the task ends
#[no_mangle]
pub extern "C" fn h_input(len: u64, cap: u64, out: u64, fd: u64, delays: u64, cancel: u64) {
    *tokio::pipe::CAPACITY.get() = cap as usize;
    let input: Vec<u8> = (0..nd::choose(len as usize + 1, "length")).map(|_| nd::u8("in")).collect();
    // how much of its input the child reads, and when it writes its output
    let reads = nd::choose(3, "reads: all, some, nothing");
    let first = nd::choose(2, "writes first") == 1;
    let code = nd::choose(2, "code") as i32;
    let hangs = cancel > 0 && nd::choose(2, "never ends") == 1;
    let got: &'static Cell0<Vec<u8>> = Box::leak(Box::new(Cell0::new(vec![])));
    tokio::process::set_spawner(move |mut rq| {
        Ok(Box::pin(async move {
            let mut so = rq.stdout.take();
            let mut inp = rq.read_fds.remove(&(fd as i32));
            nd::check(inp.is_some(), "the input is not at the file descriptor asked for");
            let data = vec![b'x'; out as usize];
            if first {
                put(&mut so, &data, 2).await;
            }
            if let Some(p) = inp.as_mut() {
                match reads {
                    0 => {
                        let _ = p.read_to_end(got.get()).await;
                    }
                    1 => {
                        let mut b = [0u8; 1];
                        let n = p.read(&mut b).await.unwrap();
                        got.get().extend(&b[..n]);
                    }
                    _ => {}
                }
            }
            if !first {
                put(&mut so, &data, 2).await;
            }
            if hangs {
                std::future::pending::<()>().await;
            }
            code << 8
        }))
    });
    let mut g = ExecGraph::new(LogFile::<LogFileRW>::new("/ndfs/w.log").unwrap());
    g.add_task(
        Cmd { cmdline: vec!["x".into()], key: "k".into(), display: Some("d".into()), affinity: BitArray::new(1), fd_input: Some((fd as i32, input.clone())), ..Cmd::default() },
        vec![],
    )
    .unwrap();
    if hangs {
        tokio::task::spawn_named("user", async {
            tokio::time::sleep(std::time::Duration::from_secs(2)).await;
            tokio::signal::unix::raise(2);
        });
    }
    sched::budgets(delays as u32, 0, 0);
    tokio::rt::rt().max_polls = 5000;
    let r = tokio::rt::try_block_on(g.execute(None, 1, u32::MAX, true, None, 0));
    let Ok(r) = r else {
        nd::fail("the execution does not end");
        return;
    };
    let (nf, _) = r.unwrap();
    drop(g);
    nd::check((nf == 0) == (code == 0 && !hangs), "the task's result is not the process's");
    match reads {
        0 => {
            nd::check(*got.get() == input, "the process does not get the task's input");
            nd::cover("all input read");
        }
        1 => {
            nd::check(input.starts_with(got.get()), "the process does not get the task's input");
            nd::cover("part of the input read");
        }
        _ => nd::cover("input ignored"),
    }
}

/// amounts of data around the sizes of buffers and pipes, and far beyond them
#[no_mangle]
pub extern "C" fn h_big(kinds: u64) {
    const SIZES: [usize; 8] = [1, 4097, 8192, 8193, 65536, 65537, 1 << 20 | 1, 2_500_000];
    let chan = nd::choose(kinds as usize, "channel");
    let size = SIZES[nd::choose(SIZES.len(), "size")];
    let data: Vec<u8> = (0..size).map(|i| (i % 251) as u8 & 0x7f).collect();
    let d2 = data.clone();
    if chan < 3 {
        tokio::process::set_spawner(move |mut rq| {
            let d2 = d2.clone();
            Ok(Box::pin(async move {
                match chan {
                    0 => put(&mut rq.stdout, &d2, 30_000).await,
                    1 => put(&mut rq.stderr, &d2, 30_000).await,
                    _ => put(&mut rq.write_fds.remove(&3), &d2, 30_000).await,
                }
                0
            }))
        });
        let (r, w) = tokio::pipe::pipe();
        let child = Command::new("x")
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .fd_mappings(vec![FdMapping { parent_fd: w.as_raw_fd(), child_fd: 3 }])
            .unwrap()
            .spawn()
            .unwrap();
        drop(w);
        let Ok(Ok(out)) = tokio::rt::try_block_on(wait_with_output(child, r)) else {
            nd::fail("waiting for the child fails");
            return;
        };
        let whole = |i: usize, b: &[u8]| if i == chan { b == data } else { b.is_empty() };
        nd::check(whole(0, &out.stdout) && whole(1, &out.stderr) && whole(2, &out.fd3bytes), "a large output is not collected whole");
        let (so, se) = (out.stdout_str(), out.stderr_str());
        nd::check(so.len() == out.stdout.len() && se.len() == out.stderr.len(), "the text of a large output is not what the child wrote");
        nd::cover("large output");
    } else {
        let got: &'static Cell0<Vec<u8>> = Box::leak(Box::new(Cell0::new(vec![])));
        tokio::process::set_spawner(move |mut rq| {
            Ok(Box::pin(async move {
                if let Some(p) = rq.read_fds.remove(&4).as_mut() {
                    let _ = p.read_to_end(got.get()).await;
                }
                0
            }))
        });
        let mut g = ExecGraph::new(LogFile::<LogFileRW>::new("/ndfs/w.log").unwrap());
        let c = Cmd { cmdline: vec!["x".into()], key: "k".into(), display: Some("d".into()), affinity: BitArray::new(1), fd_input: Some((4, d2)), ..Cmd::default() };
        g.add_task(c, vec![]).unwrap();
        let r = tokio::rt::try_block_on(g.execute(None, 1, u32::MAX, true, None, 0));
        let Ok(Ok(r)) = r else {
            nd::fail("the execution does not end");
            return;
        };
        nd::check(r.0 == 0 && *got.get() == data, "the process does not get a large input whole");
        nd::cover("large input");
    }
    nd::log(1, size as u64);
}

/// what the log says of a process: its exit code or signal, and the values it reported, however it ended
#[no_mangle]
pub extern "C" fn h_logged() {
    const TEXTS: [&[u8]; 4] = [b"", b"a=1 b='2 3'\n", b"a=1\n'x\nb=2", b"word\na=\n"];
    let text = TEXTS[nd::choose(TEXTS.len(), "values")];
    let (raw, want) = status();
    tokio::process::set_spawner(move |mut rq| {
        Ok(Box::pin(async move {
            put(&mut rq.write_fds.remove(&3), text, 99).await;
            raw
        }))
    });
    let mut l = LogFile::<LogFileRW>::new("/ndfs/w.log").unwrap();
    l.write(LogEntry::Header(HeaderEntry {
        version: LOGFILE_VERSION,
        time: std::time::SystemTime::now(),
        user: "u".into(),
        hostname: "h".into(),
        workflow_key: "wf".into(),
        cmdline: vec![],
        workdir: "/".into(),
        pid: 1,
        storage_roots: vec![],
    }))
    .unwrap();
    let mut g = ExecGraph::new(l);
    let c = Cmd { cmdline: vec!["x".into()], key: "k".into(), display: Some("d".into()), affinity: BitArray::new(1), ..Cmd::default() };
    g.add_task(c, vec![]).unwrap();
    let r = tokio::rt::try_block_on(g.execute(None, 1, u32::MAX, true, None, 0));
    let Ok(Ok(r)) = r else {
        nd::fail("the execution does not end");
        return;
    };
    drop(g);
    nd::check((r.0 == 0) == (want == 0), "the task's result is not the process's");
    let l = LogFileSnapshotReader::open("/ndfs/w.log".into()).unwrap().read().unwrap();
    let mut n = 0;
    for e in l {
        if let LogEntry::Finished(f) = e {
            n += 1;
            nd::check(f.status == want, "the log has another exit code or signal than the process");
            nd::check(f.values == reference(text), "the log has other values than the process reported");
        }
    }
    nd::check(n == 1, "the log does not have one end of the task");
    nd::cover(if want == 0 { "success logged" } else { "failure logged" });
    nd::log(1, r.0 as u64);
}
