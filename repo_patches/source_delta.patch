From b5dceaff074808f89a9000e24138842c40a47ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 01/21] fix: decide and apply a cancellation request under one
 lock

CancellationToken::cancel looked at the current state and replaced it in two
steps. A soft cancellation that looked before a concurrent hard cancellation
and wrote after it undid the hard one (or moved an earlier cutoff later), so
whoever waits for the hard cancellation waited forever.
---
 src/fancy_cancellation_token.rs | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/fancy_cancellation_token.rs b/src/fancy_cancellation_token.rs
index f3fcfcf..62d7dd5 100644
--- a/src/fancy_cancellation_token.rs
+++ b/src/fancy_cancellation_token.rs
@@ -77,24 +77,28 @@ impl CancellationToken {
     }
 
     pub fn cancel(&self, state: CancellationState) {
-        if let CancellationState::CancelledAfterTime(new_time) = state {
-            // if we're trying to do a soft cancel, check the current state
-            let existing = self.inner.receiver.borrow();
-            match *existing {
-                Some(CancellationState::CancelledAfterTime(existing_time))
-                    if new_time > existing_time =>
-                {
-                    // if the existing time is older than the new time, no need to do anything
-                    return;
-                }
-                Some(CancellationState::HardCancelled) => {
-                    // if we're already hard canceled, don't override it with a new soft cancel
-                    return;
+        // check the current state and replace it under one lock, so that a request from another thread
+        // cannot get in between and be overwritten.
+        self.inner.sender.send_if_modified(|existing| {
+            if let CancellationState::CancelledAfterTime(new_time) = state {
+                // if we're trying to do a soft cancel, check the current state
+                match *existing {
+                    Some(CancellationState::CancelledAfterTime(existing_time))
+                        if new_time > existing_time =>
+                    {
+                        // if the existing time is older than the new time, no need to do anything
+                        return false;
+                    }
+                    Some(CancellationState::HardCancelled) => {
+                        // if we're already hard canceled, don't override it with a new soft cancel
+                        return false;
+                    }
+                    _ => {}
                 }
-                _ => {}
             }
-        }
-        self.inner.sender.send_replace(Some(state));
+            *existing = Some(state.clone());
+            true
+        });
     }
 }
 
-- 
2.43.0


From 9e2ecae5b5e28230cbceed6d86a2dbe8e8890357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:30 +0000
Subject: [PATCH 02/21] fix: recv must not take num_ready below zero after a
 shutdown

When background_serve shuts down it sets num_ready of every queue to zero while
a runner may still be holding the item it took off the queue. The runner's
decrement then wrapped around to 4294967295 ready tasks (a panic in debug builds).
---
 src/sync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sync.rs b/src/sync.rs
index 1af1d8d..d1d32af 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -632,7 +632,8 @@ impl ReadyTrackerClient {
             let (task, _priority) = receiver.recv().await?;
             if !task.taken.fetch_or(true, SeqCst) {
                 let mut x = self.queuestate.get_mut(&task.affinity.data).expect("bar");
-                x.num_ready -= 1;
+                // background_serve zeroes num_ready when it shuts down, possibly just before we get here
+                x.num_ready = x.num_ready.saturating_sub(1);
                 x.num_inflight += 1;
                 self.ratecounter_launch.update(std::time::Instant::now());
                 return Ok(task.id);
-- 
2.43.0


From 9039783ba0d722716a70d35e70bea7941e3c0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:50 +0000
Subject: [PATCH 03/21] fix: a later execute must not run tasks below one that
 failed in the same session

Tasks that were run (or whose failure was reused) by an earlier call to execute
in the same session are dropped from the graph together with their edges, also
when they had failed. Everything downstream of them then looked as if it had no
dependencies left and was launched.
---
 src/execgraph.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 6cb05a5..c1417fd 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -13,7 +13,7 @@ use bitvec::array::BitArray;
 use derivative::Derivative;
 use futures::future::join_all;
 use hyper::Server;
-use petgraph::prelude::*;
+use petgraph::{algo::toposort, prelude::*};
 use std::{
     collections::{HashMap, HashSet},
     convert::TryInto,
@@ -491,12 +491,29 @@ fn get_subgraph<'a, 'b: 'a>(
         None => deps.filter_map(|_n, w| Some(w), |_e, _w| Some(())),
     };
 
+    // Tasks that failed earlier within this session are not run again, so nothing that needs them can run
+    // either: collect everything which still has to be run and is downstream of one of them.
+    let mut blocked: HashSet<NodeIndex> = HashSet::new();
+    for n in toposort(&subgraph, None).map_err(|e| anyhow!("Graph contains a cycle: {:?}", e))? {
+        let w = subgraph[n];
+        if completed.contains(&w.key) || logfile.has_success(&w.key) {
+            continue;
+        }
+        if subgraph.neighbors_directed(n, Direction::Incoming).any(|d| {
+            let dep = subgraph[d];
+            blocked.contains(&d)
+                || (completed.contains(&dep.key) && logfile.has_failure(&dep.key))
+        }) {
+            blocked.insert(n);
+        }
+    }
+
     let mut reused_old_keys = HashSet::new();
 
     // Now let's remove all edges from the dependency graph if the source has already finished
     // or if we've already exeuted the task in a previous call to execute
     let mut filtered_subgraph = subgraph.filter_map(
-        |_n, &w| {
+        |n, &w| {
             if completed.contains(&w.key) {
                 // if we already ran this command within this process, don't record it
                 // in reused_old_keys. that's only for stuff that was run in a previous
@@ -516,6 +533,14 @@ fn get_subgraph<'a, 'b: 'a>(
                 return None;
             }
 
+            if blocked.contains(&n) {
+                trace!(
+                    "Skipping {} because it's downstream of a task that failed within this session",
+                    w.key
+                );
+                return None;
+            }
+
             trace!("Retaining {} because it has not been run before", w.key);
             Some(w)
         },
-- 
2.43.0


From dbf6047a7b4fc0274caa2b3ff5ef4495411df2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 04/21] fix: feed a task's fd input while waiting for its
 output

Writing all of it first deadlocks once the input is larger than a pipe and the
child writes output before reading, and panics if the child does not read it all.
---
 src/bin/execgraph-remote.rs | 17 ++++++-----------
 src/localrunner.rs          | 37 +++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index a3ab2f8..f2365f2 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        wait_with_output, ChildOutput, ChildProcessError
+        feed_input, wait_with_output, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -18,7 +18,6 @@ use notify::Watcher;
 use reqwest::header::{HeaderMap, HeaderValue};
 use std::{convert::TryInto, io::Read, os::unix::prelude::AsRawFd, sync::atomic::AtomicBool, time::Duration};
 use thiserror::Error;
-use tokio::io::AsyncWriteExt;
 use tokio_command_fds::{CommandFdExt, FdMapping};
 use tokio_util::sync::CancellationToken;
 use tracing::warn;
@@ -390,14 +389,6 @@ async fn run_command(
         }
     };
 
-    // dump input into fd4 immediately
-    if let Some(p) = fd4_write_pipe {
-        let (_fd, buf) = start.fd_input.as_ref().unwrap();
-        let mut writer = tokio::io::BufWriter::new(p);
-        writer.write_all(buf).await.unwrap();
-        writer.flush().await.unwrap();
-    }
-
     let pid = child
        .id()
        .expect("child hasn't been waited for yet, so its pid should exist");
@@ -418,7 +409,11 @@ async fn run_command(
         }
     };
 
-    let mut child_futures = std::pin::pin!(wait_with_output(child, read_fd3));
+    let mut child_futures = std::pin::pin!(feed_input(
+        fd4_write_pipe,
+        start.fd_input.as_ref().map_or(&[], |(_fd, buf)| buf),
+        wait_with_output(child, read_fd3),
+    ));
 
     let mut stderr_prefix: Option<String> = None;
 
diff --git a/src/localrunner.rs b/src/localrunner.rs
index f521600..d02bd0d 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -16,7 +16,7 @@ use tokio::{
     process::Command,
 };
 use tokio_command_fds::{CommandFdExt, FdMapping};
-use tokio_pipe::PipeRead;
+use tokio_pipe::{PipeRead, PipeWrite};
 use tracing::debug;
 
 use crate::{
@@ -113,14 +113,6 @@ pub async fn run_local_process_loop(
             }
         };
 
-        // Dump input into fd4 immediately
-        if let Some(p) = fd4_write_pipe {
-            let (_fd, buf) = cmd.fd_input.as_ref().unwrap();
-            let mut writer = tokio::io::BufWriter::new(p);
-            writer.write_all(buf).await.unwrap();
-            writer.flush().await.unwrap();
-        }
-
         // Get PID from fd3, or if it doesn't send one, just the child PID
         let pid = child
             .id()
@@ -141,7 +133,11 @@ pub async fn run_local_process_loop(
                 debug!("Received cancellation {:#?}", cmd.display);
                 return;
             },
-            output = wait_with_output(child, fd3_read_pipe) => {
+            output = feed_input(
+                fd4_write_pipe,
+                cmd.fd_input.as_ref().map_or(&[], |(_fd, buf)| buf),
+                wait_with_output(child, fd3_read_pipe),
+            ) => {
                 output.unwrap()
             }
         };
@@ -158,6 +154,27 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// Write `buf` to `pipe` while waiting for `output`. The child is free to produce output before it
+/// reads its input, and to exit or close its end of the pipe without reading all of it.
+pub async fn feed_input<T>(
+    pipe: Option<PipeWrite>,
+    buf: &[u8],
+    output: impl std::future::Future<Output = T>,
+) -> T {
+    let feed = async move {
+        if let Some(mut pipe) = pipe {
+            if let Err(e) = pipe.write_all(buf).await {
+                debug!("Child did not read all of its input: {}", e);
+            }
+        }
+    };
+    let mut output = std::pin::pin!(output);
+    tokio::select! {
+        out = &mut output => out,
+        () = feed => output.await,
+    }
+}
+
 pub async fn wait_with_output(
     mut child: tokio::process::Child,
     fd: PipeRead,
-- 
2.43.0


From d9a2b2eba4e850e07507d3aa06a5972ad5630c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 05/21] fix: converting a ChildProcessError into a RemoteError
 must not recurse forever

---
 src/bin/execgraph-remote.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index f2365f2..542fe33 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -626,7 +626,10 @@ enum RemoteError {
 
 impl From<ChildProcessError> for RemoteError {
     fn from(e: ChildProcessError) -> Self {
-        e.into()
+        match e {
+            ChildProcessError::Utf8Error(e) => e.into(),
+            ChildProcessError::IoError(e) => e.into(),
+        }
     }
 }
 
-- 
2.43.0


From 9e60c3130703b545208f8207439907950d0aba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 06/21] fix: send SIGTERM to the child only once when the
 scheduler's deadline approaches

The deadline stays in the past, so the loop signalled the child without pause.
---
 src/bin/execgraph-remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index 542fe33..2e09f23 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -454,7 +454,7 @@ async fn run_command(
                     }
                 return Err(RemoteError::Sigterm)
             },
-            _ = tokio::time::sleep_until(time_to_sigterm_child.deadline) => {
+            _ = tokio::time::sleep_until(time_to_sigterm_child.deadline), if stderr_prefix.is_none() => {
                 // send sigterm to child, but then go back into this loop and continue, waiting for the child to
                 // hopefully actually exit itself.
                 unsafe { libc::kill(pid.try_into().unwrap(), libc::SIGTERM); }
-- 
2.43.0


From e0e9956e98b1634dafa29484b75abfc60128395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 07/21] fix: open and continue a log whose last entry was cut
 short by a crash

---
 src/logfile2.rs | 76 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 583a37c..0e5f034 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -159,6 +159,17 @@ pub struct LogFile<T> {
     runcounts: HashMap<String, RuncountStatus>,
     mode: PhantomData<T>,
 }
+
+/// How a log file ends
+enum Tail {
+    /// with a complete line, or it is empty
+    Complete,
+    /// with a complete entry that lacks its line terminator
+    Unterminated,
+    /// with a part of an entry, which starts at offset
+    Torn { offset: u64 },
+}
+
 pub struct LogFileSnapshotReader {
     f: std::fs::File,
 }
@@ -199,7 +210,15 @@ impl LogFile<LogFileRW> {
             .create(true)
             .write(true)
             .open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, tail) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        match tail {
+            Tail::Complete => {}
+            Tail::Unterminated => f.write_all(&[b'\n'])?,
+            Tail::Torn { offset } => {
+                f.set_len(offset)?;
+                f.seek(std::io::SeekFrom::Start(offset))?;
+            }
+        }
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -281,7 +300,7 @@ impl LogFile<LogFileRO> {
     #[tracing::instrument]
     fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         let mut f = std::fs::OpenOptions::new().read(true).open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, _tail) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -296,27 +315,49 @@ impl LogFile<LogFileRO> {
 impl<T> LogFile<T> {
     fn load_runcounts(
         f: &mut std::fs::File,
-    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>)> {
+    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>, Tail)> {
         let mut runcounts = HashMap::new();
         let mut header = None;
         let mut workflow_key = None;
 
+        let mut tail = Tail::Complete;
+
         let mut reader = std::io::BufReader::new(f);
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut iline = 0;
+        let mut offset = 0;
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            let value: LogEntry = serde_json::from_str(&line).map_err(|e| {
-                tracing::error!("Unable to parse {}th line. Got {}", iline, line);
-                e
-            })?;
+            let terminated = line.ends_with(&[b'\n']);
+            while line.ends_with(&[b'\n']) || line.ends_with(&[b'\r']) {
+                line.pop();
+            }
+            let value: LogEntry = match serde_json::from_slice(&line) {
+                Ok(value) => value,
+                Err(e) if !terminated && e.is_eof() => {
+                    // the process that wrote this died in the middle of the entry
+                    tracing::warn!("Ignoring the incomplete last line");
+                    tail = Tail::Torn { offset };
+                    break;
+                }
+                Err(e) => {
+                    tracing::error!(
+                        "Unable to parse {}th line. Got {}",
+                        iline,
+                        String::from_utf8_lossy(&line)
+                    );
+                    return Err(e.into());
+                }
+            };
+            if !terminated {
+                tail = Tail::Unterminated;
+            }
             iline += 1;
+            offset += nbytes as u64;
             match value {
                 LogEntry::Header(h) => {
                     match workflow_key {
@@ -386,7 +427,7 @@ impl<T> LogFile<T> {
             }
         }
 
-        Ok((runcounts, header))
+        Ok((runcounts, header, tail))
     }
 
     pub fn workflow_key(&self) -> Option<String> {
@@ -572,16 +613,17 @@ impl LogFileSnapshotReader {
         self.f.seek(std::io::SeekFrom::Start(0))?;
         let mut reader = std::io::BufReader::new(&self.f);
         let mut v = Vec::new();
-        let mut line = String::new();
+        let mut line = Vec::new();
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            match serde_json::from_str(&line) {
+            while line.ends_with(&[b'\n']) || line.ends_with(&[b'\r']) {
+                line.pop();
+            }
+            match serde_json::from_slice(&line) {
                 Ok(value) => v.push(value),
                 Err(e) if e.is_data() => {}
                 Err(e) => {
-- 
2.43.0


From 8a3dab7e43ea22dd1fd803f9ca8ff6bb42b3a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 08/21] fix: a session must flush its log before unlocking it
 and must not own a removed lock file

---
 src/logfile2.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 0e5f034..119c4a8 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -6,6 +6,7 @@ use std::{
     env,
     io::{BufRead, Seek, Write},
     marker::PhantomData,
+    os::unix::fs::MetadataExt,
     path::PathBuf,
     time::SystemTime,
 };
@@ -196,11 +197,21 @@ impl LogFile<LogFileRW> {
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         // acquire the lock file and write something to it
         let lockf_path = path.as_ref().with_file_name(".wrk.lock");
-        let lockf = std::fs::OpenOptions::new()
-            .create(true)
-            .write(true)
-            .open(&lockf_path)?;
-        lockf.try_lock(FileLockMode::Exclusive)?;
+        let lockf = loop {
+            let lockf = std::fs::OpenOptions::new()
+                .create(true)
+                .write(true)
+                .open(&lockf_path)?;
+            lockf.try_lock(FileLockMode::Exclusive)?;
+            // a session that was closed meanwhile may have removed the file that we just locked,
+            // in which case the lock excludes nobody.
+            match std::fs::metadata(&lockf_path) {
+                Ok(current) if current.ino() == lockf.metadata()?.ino() => break lockf,
+                Ok(_) => {}
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+                Err(e) => return Err(e.into()),
+            }
+        };
         let mut lockf = std::io::BufWriter::new(lockf);
         serde_json::to_writer(&mut lockf, &LogEntry::new_header("", vec![])?)?;
         lockf.flush()?;
@@ -495,6 +506,10 @@ impl<T> LogFile<T> {
 impl<T> Drop for LogFile<T> {
     fn drop(&mut self) {
         if let Some((_f, lockf_path)) = self.lockf.as_ref() {
+            // everything has to be in the file before another session can open it
+            if let Err(e) = self.f.flush() {
+                tracing::error!("Unable to flush the log: {}", e);
+            }
             drop(std::fs::remove_file(lockf_path));
         }
     }
-- 
2.43.0


From ffc8978ae1572f467ac0c0c1b11729530fa325ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 09/21] fix: a result from another job must not close a
 runner's transaction

---
 src/server.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index ddc1ffe..0153dfe 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -460,18 +460,18 @@ async fn end_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // If the RPC trying to end a job is coming from a different slurm jobid
+    // than the RPC which started the job, something fishy is going on. The
+    // transaction stays open for the runner that it belongs to.
     let cstate = {
         let (_transaction_id, cstate) = state
             .connections
-            .remove(&request.transaction_id)
+            .remove_if(&request.transaction_id, |_, cstate| {
+                cstate.slurm_jobid == runner_slurm_jobid
+            })
             .ok_or(AppError::NoSuchTransaction)?;
         cstate
     };
-    // If the RPC trying to end a job is coming from a different slurm jobid
-    // than the RPC which started the job, something fishy is going on.
-    if cstate.slurm_jobid != runner_slurm_jobid {
-        return Err(AppError::NoSuchTransaction);
-    };
 
     state.timeouts.cancel(cstate.timer_id);
     let flag = AsyncFlag::new();
-- 
2.43.0


From b541ce70f0cb8ecc8c9f96bb601a303b5f75d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 10/21] fix: a repeated /begun must not start a task twice

---
 src/server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 0153dfe..7620890 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -52,6 +52,8 @@ struct ConnectionState {
     timer_id: TimerID,
     disconnect_error_message: String,
     slurm_jobid: String,
+    /// whether the runner has told us that it began
+    begun: bool,
 }
 
 pub struct State<'a> {
@@ -387,6 +389,7 @@ async fn start_request_impl(
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
+            begun: false,
         },
     );
 
@@ -408,7 +411,7 @@ async fn begun_handler(
     if authorization.token() != state.authorization_token {
         return Err(AppError::Unauthorized);
     };
-    let cstate = state
+    let mut cstate = state
         .connections
         .get_mut(&request.transaction_id)
         .ok_or(AppError::NoSuchTransaction)?;
@@ -424,6 +427,11 @@ async fn begun_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // A repeated /begun (a retry, say) has no further effect: the task starts only once.
+    if std::mem::replace(&mut cstate.begun, true) {
+        return Ok((StatusCode::OK, "").into_response());
+    }
+
     state
         .tracker
         .send_started(
-- 
2.43.0


From 7c7a2f82d5fd2a8f4e0072f5ef1de2d9985d3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 11/21] fix: a new hand-out must not take over the transaction
 id of another one

---
 src/server.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 7620890..2d903c6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -15,7 +15,7 @@ use axum::{
     response::{IntoResponse, Response},
     Extension, Json, Router, TypedHeader,
 };
-use dashmap::DashMap;
+use dashmap::{mapref::entry::Entry, DashMap};
 use hyper::{header::AUTHORIZATION, Body, Request, StatusCode};
 use petgraph::graph::{DiGraph, NodeIndex};
 use serde_json::json;
@@ -373,25 +373,27 @@ async fn start_request_impl(
     }.await?;
     let cmd = state.subgraph[node_id];
     cmd.call_preamble();
-    let transaction_id = rand::random::<u32>();
 
-    let timer_id = state.timeouts.insert(
-        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
-        transaction_id,
-    );
-
-    state.connections.insert(
-        transaction_id,
-        ConnectionState {
-            start_time_approx: std::time::Instant::now(),
-            timer_id,
-            cmd: cmd.clone(),
-            node_id,
-            disconnect_error_message: request.disconnect_error_message,
-            slurm_jobid: runner_slurm_jobid,
-            begun: false,
-        },
-    );
+    // A random transaction id may already be in use by another runner.
+    let transaction_id = loop {
+        let transaction_id = rand::random::<u32>();
+        if let Entry::Vacant(entry) = state.connections.entry(transaction_id) {
+            let timer_id = state.timeouts.insert(
+                std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
+                transaction_id,
+            );
+            entry.insert(ConnectionState {
+                start_time_approx: std::time::Instant::now(),
+                timer_id,
+                cmd: cmd.clone(),
+                node_id,
+                disconnect_error_message: request.disconnect_error_message,
+                slurm_jobid: runner_slurm_jobid,
+                begun: false,
+            });
+            break transaction_id;
+        }
+    };
 
     Ok(StartResponse {
         transaction_id,
-- 
2.43.0


From 5fc9463957777331637bed331032a3e906ce5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 12/21] fix: a soft shutdown must end without a further result
 and must not lose tasks just handed out

A soft shutdown with nothing in flight was only noticed when the next task
finished, so the execution never ended. A task that was handed out but had not
been reported as started was not counted, so the execution could end before
its result came in. The fizzle limit left num_ready at its old value.
---
 src/sync.rs | 58 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index d1d32af..5300f8d 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -67,6 +67,8 @@ pub struct ReadyTrackerServer<'a> {
     // number of tasks that are either in the ready queues, waiting for a runner to pluck them,
     // or inflight.
     n_ready_or_inflight: u32,
+    // the "taken" flags of the tasks that were put into the ready queues and have not finished yet
+    taken_flags: HashMap<NodeIndex, Arc<AtomicBool>>,
     ready_or_inflight_increased_event: AsyncCounter,
     count_offset: u32,
     fizzles_allowed: u32,
@@ -151,6 +153,7 @@ pub fn new_ready_tracker<'a>(
         n_fizzled: 0,
         n_success: 0,
         n_ready_or_inflight: 0,
+        taken_flags: HashMap::new(),
         n_unready_tasks_approximate_for_eta_purposes_only: Arc::new(AtomicU32::new(0)),
         ready_or_inflight_increased_event: ready_or_inflight_increased_event.clone(),
         count_offset,
@@ -335,33 +338,14 @@ impl<'a> ReadyTrackerServer<'a> {
                                     self.n_fizzled, self.fizzles_allowed, self.n_ready_or_inflight);
                                 // cancel any tasks that have been going for less than FIZZLED_TIME_CUTOFF
                                 token.cancel(CancellationState::CancelledAfterTime(Instant::now() - FIZZLED_TIME_CUTOFF));
-                                self.ready = None;
-                                self.shutdown_state = ShutdownState::SoftShutdown;
-                            }
-
-                            if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.inflight.is_empty()) {
-                                // Drop the send side of the `self.ready` channel. This will cause the receive side
-                                // to start returning errors when localrunner.rs and server.rs call recv(), which is exactl
-                                // what we want and will break the run_local_process_loop runners at the point where they're
-                                // waiting to get a task from the ready task receiver
-                                self.ready = None;
-                                debug!("background_serve breaking on n_failed={} fizzles_allowed={} n_ready_or_inflight={}",
-                                    self.n_failed, self.fizzles_allowed, self.n_ready_or_inflight);
-                                break;
+                                self.enter_soft_shutdown();
                             }
                         }
                     }
                 },
                 _ = self.soft_shutdown_trigger.wait() => {
                     debug!("Background serve received soft_shutdown_trigger");
-                    self.ready = None;
-                    // Setting num_ready = 0 in the queuestate object (which is a shared hashmap that's accessed from multiple threads)
-                    // ensures that the http status/ endpoint used by provisioners will know that there are no more jobs left
-                    // and will not submit any more slurm runners.
-                    for mut item in self.queuestate.iter_mut() {
-                        item.num_ready = 0;
-                    }
-                    self.shutdown_state = ShutdownState::SoftShutdown;
+                    self.enter_soft_shutdown();
                     self.soft_shutdown_trigger.unset();
                 },
                 _ = token.hard_cancelled() => {
@@ -375,6 +359,17 @@ impl<'a> ReadyTrackerServer<'a> {
                     break;
                 }
             };
+
+            if self.n_ready_or_inflight == 0 {
+                // Drop the send side of the `self.ready` channel. This will cause the receive side
+                // to start returning errors when localrunner.rs and server.rs call recv(), which is exactl
+                // what we want and will break the run_local_process_loop runners at the point where they're
+                // waiting to get a task from the ready task receiver
+                self.ready = None;
+                debug!("background_serve breaking on n_failed={} fizzles_allowed={} n_ready_or_inflight={}",
+                    self.n_failed, self.fizzles_allowed, self.n_ready_or_inflight);
+                break;
+            }
         }
 
         if self.ready.is_none() {
@@ -389,6 +384,25 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    /// Stop dispatching new work. Tasks that were handed out already may finish.
+    fn enter_soft_shutdown(&mut self) {
+        self.ready = None;
+        // Setting num_ready = 0 in the queuestate object (which is a shared hashmap that's accessed from multiple threads)
+        // ensures that the http status/ endpoint used by provisioners will know that there are no more jobs left
+        // and will not submit any more slurm runners.
+        for mut item in self.queuestate.iter_mut() {
+            item.num_ready = 0;
+        }
+        self.shutdown_state = ShutdownState::SoftShutdown;
+        // Withdraw the tasks that no runner has claimed, so that n_ready_or_inflight counts only those that
+        // were handed out, whether or not we have heard yet that they started.
+        for (_, taken) in self.taken_flags.drain() {
+            if !taken.fetch_or(true, SeqCst) {
+                self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1);
+            }
+        }
+    }
+
     async fn _finished_bookkeeping(&mut self, e: &mut FinishedEvent) -> Result<()> {
         self._finished_bookkeeping_1(e)?;
         let out = self._finished_bookkeeping_2(e).await;
@@ -423,6 +437,7 @@ impl<'a> ReadyTrackerServer<'a> {
 
         {
             self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1);
+            self.taken_flags.remove(&e.id);
             let mut v = self
                 .queuestate
                 .get_mut(&cmd.affinity.data)
@@ -540,6 +555,7 @@ impl<'a> ReadyTrackerServer<'a> {
                 .num_ready += 1;
 
             let taken = Arc::new(AtomicBool::new(false));
+            self.taken_flags.insert(index, taken.clone());
 
             for i in cmd.affinity.iter_ones() {
                 inserts[i].push((
-- 
2.43.0


From b7ff3d5d2200b01d00a6de02f8f456bea570521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 13/21] fix: a job that was marked as cancelled while it waited
 for a task must not be given one

---
 src/server.rs | 55 +++++++++++++++++++++++++++++++++------------------
 src/sync.rs   | 53 +++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 83 insertions(+), 25 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 2d903c6..b07e1d1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -372,28 +372,45 @@ async fn start_request_impl(
         }
     }.await?;
     let cmd = state.subgraph[node_id];
-    cmd.call_preamble();
 
-    // A random transaction id may already be in use by another runner.
-    let transaction_id = loop {
-        let transaction_id = rand::random::<u32>();
-        if let Entry::Vacant(entry) = state.connections.entry(transaction_id) {
-            let timer_id = state.timeouts.insert(
-                std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
-                transaction_id,
-            );
-            entry.insert(ConnectionState {
-                start_time_approx: std::time::Instant::now(),
-                timer_id,
-                cmd: cmd.clone(),
-                node_id,
-                disconnect_error_message: request.disconnect_error_message,
-                slurm_jobid: runner_slurm_jobid,
-                begun: false,
-            });
-            break transaction_id;
+    let transaction_id = {
+        // The jobid may have been scanceled while we waited for the task. The read lock is
+        // held until the connection can be seen by mark_slurm_job_cancelation.
+        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
+        if cancelled_slurm_jobids.contains(&runner_slurm_jobid) {
+            None
+        } else {
+            // A random transaction id may already be in use by another runner.
+            Some(loop {
+                let transaction_id = rand::random::<u32>();
+                if let Entry::Vacant(entry) = state.connections.entry(transaction_id) {
+                    let timer_id = state.timeouts.insert(
+                        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
+                        transaction_id,
+                    );
+                    entry.insert(ConnectionState {
+                        start_time_approx: std::time::Instant::now(),
+                        timer_id,
+                        cmd: cmd.clone(),
+                        node_id,
+                        disconnect_error_message: request.disconnect_error_message,
+                        slurm_jobid: runner_slurm_jobid,
+                        begun: false,
+                    });
+                    break transaction_id;
+                }
+            })
         }
     };
+    let transaction_id = match transaction_id {
+        Some(transaction_id) => transaction_id,
+        None => {
+            // Some other runner has to do this task.
+            state.tracker.send_returned(node_id).await;
+            return Err(AppError::Shutdown);
+        }
+    };
+    cmd.call_preamble();
 
     Ok(StartResponse {
         transaction_id,
diff --git a/src/sync.rs b/src/sync.rs
index 5300f8d..78a629f 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -225,6 +225,7 @@ impl<'a> ReadyTrackerServer<'a> {
                         e.values,
                     ))?;
                 }
+                Ok(Event::Returned(_)) => {}
                 Err(_) => {
                     break;
                 }
@@ -303,6 +304,9 @@ impl<'a> ReadyTrackerServer<'a> {
                             ))?;
                             assert!(self.inflight.insert(e.id, Instant::now()).is_none());
                         }
+                        Event::Returned(id) => {
+                            self._returned_bookkeeping(id).await?;
+                        }
                         Event::Finished(mut e) => {
                             #[cfg(feature = "coz")]
                             {
@@ -524,6 +528,27 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    /// A task was taken out of the ready queue, but could not be given to the runner.
+    async fn _returned_bookkeeping(&mut self, id: NodeIndex) -> Result<()> {
+        {
+            let mut v = self
+                .queuestate
+                .get_mut(&self.g[id].affinity.data)
+                .expect("No such queue");
+            v.num_inflight = v.num_inflight.checked_sub(1).expect("Underflow");
+            if self.ready.is_some() {
+                v.num_ready += 1;
+            }
+        }
+        if self.ready.is_none() {
+            // no one will run it, we're shutting down
+            self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1);
+            return Ok(());
+        }
+        self.push_to_ready_channels(vec![id]).await;
+        Ok(())
+    }
+
     async fn add_to_ready_queue(
         &mut self,
         ready: Vec<NodeIndex>, // cmd index and priority
@@ -535,11 +560,9 @@ impl<'a> ReadyTrackerServer<'a> {
             u32::try_from(ready.len()).expect("arithmetic overflow")
         ).expect("arithmetic overflow");
         checked_sub(&self.n_unready_tasks_approximate_for_eta_purposes_only, ready.len());
-        let mut inserts = vec![vec![]; NUM_RUNNER_TYPES];
 
-        for index in ready.into_iter() {
-            let cmd = self.g[index];
-            let priority = cmd.priority;
+        for index in ready.iter() {
+            let cmd = self.g[*index];
             self.logfile.write(LogEntry::new_ready(
                 &cmd.key,
                 cmd.runcount,
@@ -553,7 +576,18 @@ impl<'a> ReadyTrackerServer<'a> {
                     num_inflight: 0,
                 })
                 .num_ready += 1;
+        }
+        self.push_to_ready_channels(ready).await;
+
+        Ok(())
+    }
+
+    async fn push_to_ready_channels(&mut self, ready: Vec<NodeIndex>) {
+        let mut inserts = vec![vec![]; NUM_RUNNER_TYPES];
 
+        for index in ready.into_iter() {
+            let cmd = self.g[index];
+            let priority = cmd.priority;
             let taken = Arc::new(AtomicBool::new(false));
             self.taken_flags.insert(index, taken.clone());
 
@@ -582,8 +616,6 @@ impl<'a> ReadyTrackerServer<'a> {
         }
 
         self.ready_or_inflight_increased_event.incr(); // fire an event
-
-        Ok(())
     }
 }
 
@@ -681,6 +713,14 @@ impl ReadyTrackerClient {
         };
     }
 
+    /// When a task from recv() could not be given to a runner, give it back by calling this.
+    pub async fn send_returned(&self, v: NodeIndex) {
+        let r = self.s.send(Event::Returned(v)).await;
+        if r.is_err() {
+            debug!("send_returned: cannot send to channel: {:#?}", r);
+        };
+    }
+
     /// When a task is finished, notify the tracker by calling this.
     pub async fn send_finished(&self, event: FinishedEvent) {
         let r = self.s.send(Event::Finished(event)).await;
@@ -791,6 +831,7 @@ impl FinishedEvent {
 enum Event {
     Started(StartedEvent),
     Finished(FinishedEvent),
+    Returned(NodeIndex),
 }
 
 #[derive(Debug)]
-- 
2.43.0


From bc1a816f5d51ac6bc51f60c0f5577ee8a2fb19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 14/21] fix: cancelling young remote tasks must not panic when
 one of them has just finished

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index b07e1d1..1a1c94a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -138,7 +138,10 @@ impl<'a> State<'a> {
                     }
                 }
                 for key in keys_to_remove {
-                    expired.push(self.connections.remove(&key).unwrap().1);
+                    // unless its runner has just reported the result
+                    if let Some((_, cstate)) = self.connections.remove(&key) {
+                        expired.push(cstate);
+                    }
                 }
             }
 
-- 
2.43.0


From 5a2a0f844b16d2fd04ea99238799eb0574688b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 15/21] fix: do not reap a child whose pid may still be
 signalled

While a descendant held the pipes of a finished child open, the remote runner
sent SIGTERM at the time limit to a pid that was already reaped.
---
 src/localrunner.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/localrunner.rs b/src/localrunner.rs
index d02bd0d..b93f70d 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -196,8 +196,10 @@ pub async fn wait_with_output(
     let f2 = read_to_end(&mut stderr_pipe);
     let f3 = read_to_end(&mut fd);
 
-    let (status, stdout, stderr, fd3bytes) =
-        futures::future::try_join4(child.wait(), f1, f2, f3).await?;
+    // The child is not waited for before its pipes are closed: while they are, the caller may still
+    // send signals to its pid, which belongs to the child only as long as it has not been reaped.
+    let (stdout, stderr, fd3bytes) = futures::future::try_join3(f1, f2, f3).await?;
+    let status = child.wait().await?;
     drop(stdout_pipe);
     drop(stderr_pipe);
     drop(fd);
-- 
2.43.0


From 35e3f0844cb15b65d2facf974ec0315b0b4824bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 16/21] fix: keep cleaning up after reaping a child killed by a
 real-time signal

nix's waitpid reports EINVAL for such a child, which made the remote runner exit
and leave its other child processes running.
---
 src/bin/execgraph-remote.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index 2e09f23..953bf99 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -795,6 +795,10 @@ fn cleanup_child_processes_carefully() {
                     // break out of this waitpid loop.
                     break;
                 }
+                Err(nix::errno::Errno::EINVAL) => {
+                    // We reaped a child that was killed by a signal nix has no name for
+                    // (a real-time signal). Keep looping on waitpid()
+                }
                 Err(nix::errno::Errno::ECHILD) => {
                     // The calling process does not have any unwaited-for children.
                     break;
-- 
2.43.0


From b3c435e7fb2b0c16d648014b0c1ebd1edb2fab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 17/21] fix: accept the results of tasks with more than 2 MB of
 output

axum refuses larger request bodies by default, so /end answered with an error and
the task counted as lost together with its runner.
---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 1a1c94a..eec1b2c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -634,7 +634,11 @@ pub fn router(state: Arc<State<'static>>) -> Router {
     Router::new()
         .route("/start", get(start_handler))
         .route("/begun", post(begun_handler))
-        .route("/end", post(end_handler))
+        // the output of a task may be larger than what axum accepts by default
+        .route(
+            "/end",
+            post(end_handler).layer(axum::extract::DefaultBodyLimit::disable()),
+        )
         .route("/ping", post(ping_handler))
         .route("/status", get(status_handler))
         .route(
-- 
2.43.0


From 3aa52b4fe48b6983b87e073ecbbdbbd1066965d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 18/21] fix: call a task's preamble only once, before it starts

It was called again when the start was reported, that is while the task was
already running.
---
 src/localrunner.rs | 4 ++--
 src/server.rs      | 3 ---
 src/sync.rs        | 2 --
 3 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/localrunner.rs b/src/localrunner.rs
index b93f70d..bd39f42 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -98,7 +98,7 @@ pub async fn run_local_process_loop(
             Ok(child) => child,
             Err(e) => {
                 tracker
-                    .send_started(subgraph_node_id, cmd, &hostname, 0, "".to_string())
+                    .send_started(subgraph_node_id, &hostname, 0, "".to_string())
                     .await;
                 tracker
                     .send_finished(
@@ -119,7 +119,7 @@ pub async fn run_local_process_loop(
             .expect("child hasn't been waited for yet, so its pid should exist");
 
         tracker
-            .send_started(subgraph_node_id, cmd, &hostname, pid, "".to_string())
+            .send_started(subgraph_node_id, &hostname, pid, "".to_string())
             .await;
 
         let output: ChildOutput = tokio::select! {
diff --git a/src/server.rs b/src/server.rs
index eec1b2c..b2ac00c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -47,7 +47,6 @@ lazy_static::lazy_static! {
 #[derive(Debug)]
 struct ConnectionState {
     node_id: NodeIndex,
-    cmd: Cmd,
     start_time_approx: Instant,
     timer_id: TimerID,
     disconnect_error_message: String,
@@ -394,7 +393,6 @@ async fn start_request_impl(
                     entry.insert(ConnectionState {
                         start_time_approx: std::time::Instant::now(),
                         timer_id,
-                        cmd: cmd.clone(),
                         node_id,
                         disconnect_error_message: request.disconnect_error_message,
                         slurm_jobid: runner_slurm_jobid,
@@ -458,7 +456,6 @@ async fn begun_handler(
         .tracker
         .send_started(
             cstate.node_id,
-            &cstate.cmd,
             &request.host,
             request.pid,
             runner_slurm_jobid,
diff --git a/src/sync.rs b/src/sync.rs
index 78a629f..f574739 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -693,12 +693,10 @@ impl ReadyTrackerClient {
     pub async fn send_started(
         &self,
         v: NodeIndex,
-        cmd: &Cmd,
         host: &str,
         pid: u32,
         slurm_jobid: String,
     ) {
-        cmd.call_preamble();
         let r = self
             .s
             .send(Event::Started(StartedEvent {
-- 
2.43.0


From 302864b7c07c809e448c100afa0007503bb35926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:35 +0000
Subject: [PATCH 19/21] fix: print all of a task's output on a terminal

ConsoleAndFile::write ignored how much of the buffer the console took: a
terminal's line buffer takes only 1024 bytes of an unfinished line, and the
rest was never printed. Without a file it reported that nothing was written.
---
 src/logging.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/logging.rs b/src/logging.rs
index a1f7d22..951442a 100644
--- a/src/logging.rs
+++ b/src/logging.rs
@@ -73,11 +73,12 @@ impl ConsoleAndFile {
 impl<'a> std::io::Write for &'a ConsoleAndFile {
     fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
         let mut guard = self.0.lock().unwrap();
-        guard.1.write(buf)?;
-        match guard.0.as_mut() {
-            Some(f) => f.write(buf),
-            None => Ok(0),
+        // the console takes less than it is given when it is a terminal
+        guard.1.write_all(buf)?;
+        if let Some(f) = guard.0.as_mut() {
+            f.write_all(buf)?;
         }
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From 104735db476e6c22e260806d3587366e42f18ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:35 +0000
Subject: [PATCH 20/21] fix: give child processes blocking pipes for their
 input and values

tokio_pipe opens both ends of a pipe in non-blocking mode, and the child
inherited it: reading an input before it arrived, or of more than 64 kB, and
writing values into a full pipe failed with EAGAIN.
---
 src/bin/execgraph-remote.rs |  4 +++-
 src/localrunner.rs          | 13 +++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index 953bf99..dd300a3 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        feed_input, wait_with_output, ChildOutput, ChildProcessError
+        feed_input, set_blocking, wait_with_output, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -306,8 +306,10 @@ async fn run_command(
     });
 
     let (read_fd3, write_fd3) = tokio_pipe::pipe().expect("Unable to create pipe");
+    set_blocking(&write_fd3).expect("Unable to configure pipe");
     let (fd4_read_pipe, fd4_write_pipe) = if start.fd_input.is_some() {
         let (read, write) = tokio_pipe::pipe().expect("Cannot create pipe");
+        set_blocking(&read).expect("Cannot configure pipe");
         (Some(read), Some(write))
     } else {
         (None, None)
diff --git a/src/localrunner.rs b/src/localrunner.rs
index bd39f42..331cb2b 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -49,8 +49,10 @@ pub async fn run_local_process_loop(
 
         // we're making a pipe to pass to the child process as fd3.
         let (fd3_read_pipe, fd3_write_pipe) = tokio_pipe::pipe().expect("Cannot create pipe");
+        set_blocking(&fd3_write_pipe).expect("Cannot configure pipe");
         let (fd4_read_pipe, fd4_write_pipe) = if cmd.fd_input.is_some() {
             let (read, write) = tokio_pipe::pipe().expect("Cannot create pipe");
+            set_blocking(&read).expect("Cannot configure pipe");
             (Some(read), Some(write))
         } else {
             (None, None)
@@ -154,6 +156,17 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// Put the end of a pipe that a child process inherits into blocking mode, which is what programs
+/// expect. (tokio_pipe opens both ends in non-blocking mode.)
+pub fn set_blocking(pipe: &impl AsRawFd) -> nix::Result<()> {
+    use nix::fcntl::{fcntl, FcntlArg, OFlag};
+    let fd = pipe.as_raw_fd();
+    let mut flags = OFlag::from_bits_truncate(fcntl(fd, FcntlArg::F_GETFL)?);
+    flags.remove(OFlag::O_NONBLOCK);
+    fcntl(fd, FcntlArg::F_SETFL(flags))?;
+    Ok(())
+}
+
 /// Write `buf` to `pipe` while waiting for `output`. The child is free to produce output before it
 /// reads its input, and to exit or close its end of the pipe without reading all of it.
 pub async fn feed_input<T>(
-- 
2.43.0


From c58c4d00dfe3d4affbd57c6b4bc1f367f7b83739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 21/21] fix: refuse a task whose input would be at descriptor 3

Descriptor 3 is mapped to the pipe for the values a task reports; an input
mapped to it as well made the runner panic, and the execution never ended.
---
 src/execgraph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index c1417fd..9b24b06 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -223,6 +223,13 @@ impl ExecGraph {
             return Err(anyhow!("cmd={:?}: cmdline size == 0", cmd));
         }
 
+        if matches!(cmd.fd_input, Some((3, _))) {
+            return Err(anyhow!(
+                "cmd={:?}: file descriptor 3 is where a task reports its values",
+                cmd
+            ));
+        }
+
         let key = cmd.key.clone();
         let new_node = self.deps.add_node(cmd);
         for dep in dependencies.iter().map(|&i| NodeIndex::from(i)) {
-- 
2.43.0

