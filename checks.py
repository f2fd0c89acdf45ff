"""What each check runs: rigs (harness files) and, per property, the entries with their bounds."""
RIGS = {
    "gcra": dict(harness="gcra.rs"),
    "timewheel": dict(harness="timewheel.rs"),
    "graph": dict(harness="graph.rs"),
    "token": dict(harness="token.rs"),
    "exec": dict(harness="exec.rs"),
    "logfile": dict(harness="logfile.rs"),
    "runner": dict(harness="runner.rs"),
    "server": dict(harness="server.rs"),
    "wire": dict(harness="wire.rs"),
    "remote": dict(harness="remote.rs", remote=True),
    "py": dict(harness="py.rs", python=True),
}
TECH = ("symbolic execution (own executor, symx) of the LLVM IR rustc emits for the current /repo sources and real std/dependencies, "
        "path conditions and assertions decided by z3 (bit-vectors / linear integer arithmetic)")
CHECKS = {}
# properties that are not claimed, with the reason
NOT_APPLICABLE = {
}


def check(prop, quick, thorough, covers, bounds, outside=""):
    CHECKS[prop] = dict(quick=quick, thorough=thorough, covers=covers, bounds=bounds, outside=outside, technique=TECH)


check("C11",
      quick=[("gcra", f"h_window:5,{r}") for r in range(9)] + [("gcra", f"h_wait:4,{r}") for r in range(9)]
      + [("gcra", f"h_burst:{r}") for r in (0, 1, 2, 3, 4)]
      + [("gcra", f"h_reset:2,{a},{b}") for a in range(4) for b in range(4)]
      + [("gcra", f"h_threads:{r},2,3") for r in (0, 1, 2, 3)] + [("server", "h_admin:3,2")],
      thorough=[("gcra", f"h_window:8,{r}") for r in range(9)] + [("gcra", f"h_wait:7,{r}") for r in range(9)]
      + [("gcra", f"h_burst:{r}") for r in range(6)]
      + [("gcra", f"h_reset:3,{a},{b}") for a in range(4) for b in range(4)]
      + [("gcra", f"h_threads:{r},3,5") for r in (0, 1, 2, 3)] + [("server", "h_admin:4,3")],
      covers=["granted", "refused", "waited", "burst", "granted after reset", "concurrent", "paced"],
      bounds="rates 1,2,3,7,10,60,1000,999983,2^32-1 per second; up to 5 (thorough 8) requests at arbitrary nanosecond times with gaps below 3 s; "
             "up to 3 (4) concurrent requests with 3 (5) preemptions at atomic operations",
      outside="other rates, longer histories, clock steps backwards, reset() racing with a request")
check("C12",
      quick=[("timewheel", f"h_one:35001,{p}") for p in (0, 1, 200, 255)] + [("timewheel", "h_one:1000,0"), ("timewheel", "h_many:0,4"), ("timewheel", "h_many:250,3"),
             ("server", "h_ping:1,2,0"), ("server", "h_ping:2,1,1"), ("server", "h_ping:1,140,0"), ("server", "h_ping:2,112,0")],
      thorough=[("timewheel", f"h_one:35001,{p}") for p in (0, 1, 2, 100, 128, 200, 254, 255, 256, 300)] + [("timewheel", "h_one:1000,0"), ("timewheel", "h_one:60000,77"), ("timewheel", "h_many:0,5"), ("timewheel", "h_many:250,5"), ("timewheel", "h_many:255,4"),
                ("server", "h_ping:1,3,1"), ("server", "h_ping:2,2,1"), ("server", "h_ping:3,1,0"), ("server", "h_ping:1,340,0"), ("server", "h_ping:2,160,0")],
      covers=["fired", "cancelled", "in time", "given up"],
      bounds="every duration in milliseconds between one tick and the wheel's length; histories of up to 4 (thorough 5) inserts, cancels and runs of 1..256 ticks, followed by two full revolutions; 1 and 2 (thorough 3) remote runners in a real execution, each with up to 2 (3) pings at gaps of 15, 34.7, 35.4 or 71 s, begun or not",
      outside="other gaps in whole executions, durations below one tick (never used), slot-map key reuse after 2^32 insertions")
check("C21",
      quick=[("graph", "h_graph:3,0"), ("graph", "h_graph:4,0"), ("graph", "h_graph:5,1"), ("graph", "h_graph:5,2"), ("py", "h_py_tasks:2,3")],
      thorough=[("graph", "h_graph:4,0"), ("graph", "h_graph:6,1"), ("graph", "h_graph:6,2"), ("py", "h_py_tasks:3,4")],
      covers=["cyclic", "acyclic"],
      bounds="every digraph without self-loops on 3 and 4 nodes; every DAG on 5 (thorough 6) nodes for two opposite index orders",
      outside="more nodes; parallel edges")

SCHED = ("schedules: all first-come orders of the runtime's tasks deviating at up to the stated number of delayed wake-ups, unfair select! choices or preemptions "
         "at atomic operations and locks")
RUN_Q = ["h_run:3,2,1,2,0,0,0,0", "h_run:3,4,1,2,0,0,0,0", "h_run:3,2,2,2,0,0,0,0", "h_run:2,2,2,2,1,0,0,0", "h_run:3,2,1,2,0,2,0,0", "h_run:3,2,1,2,0,0,1,0", "h_run:2,2,1,2,0,0,0,1", "h_run:4,2,1,2,0,0,0,0", "h_run:4,2,1,2,0,1,0,0"]
RUN_T = ["h_run:5,2,1,2,0,0,0,0", "h_run:4,2,1,2,0,1,0,0", "h_run:4,2,2,2,0,0,0,0", "h_run:3,4,2,2,0,0,0,0", "h_run:3,2,2,2,1,0,0,0", "h_run:3,2,1,2,0,3,0,0", "h_run:3,2,1,2,0,1,1,0", "h_run:3,2,1,2,0,0,2,0", "h_run:2,2,1,2,0,1,0,1", "h_run:3,2,1,2,0,0,0,1"]
LIM_Q = ["h_limit:105,2,1,1,0,0,0", "h_limit:105,3,2,1,0,0,0", "h_limit:3,1,3,3,0,0,0", "h_limit:3,2,3,3,0,0,0", "h_limit:3,1,2,2,1,0,0", "h_limit:2,1,2,2,0,0,1", "h_limit:2,1,2,2,0,2,0"]
LIM_T = ["h_limit:106,2,2,2,0,0,0", "h_limit:107,3,1,1,0,0,0", "h_limit:3,1,4,3,0,0,0", "h_limit:4,2,2,2,0,0,0", "h_limit:3,2,3,3,1,0,0", "h_limit:3,1,3,2,0,1,0", "h_limit:3,1,2,2,2,0,0", "h_limit:2,1,2,3,0,0,1", "h_limit:2,1,2,2,0,3,0", "h_limit:2,1,2,2,1,0,1"]
SES_Q = ["h_sessions:2,3,2,1,0,0", "h_sessions:2,2,2,1,0,0", "h_sessions:3,2,2,1,1,0", "h_sessions:4,2,2,1,0,0", "h_sessions:3,2,2,2,0,0"]
SES_T = ["h_sessions:3,2,4,1,1,0", "h_sessions:3,3,2,1,0,0", "h_sessions:2,3,2,1,1,0", "h_sessions:3,2,2,2,1,1"]
INT_Q = ["h_interrupt:2,2,2,2,2,16,0,0,0", "h_interrupt:2,2,2,3,4,0,0,0,0", "h_interrupt:2,2,2,3,3,0,1,0,0", "h_interrupt:2,1,1,3,3,0,0,1,0", "h_interrupt:1,1,1,3,3,0,0,0,1"]
INT_T = ["h_interrupt:3,2,2,2,2,24,0,0,0", "h_interrupt:2,2,2,2,2,16,1,0,0", "h_interrupt:3,2,2,2,4,0,0,0,0", "h_interrupt:3,2,2,3,3,0,0,0,0", "h_interrupt:2,2,4,3,4,0,1,0,0", "h_interrupt:2,2,2,3,2,0,2,0,0", "h_interrupt:2,1,2,3,3,0,0,2,0", "h_interrupt:2,2,1,3,2,0,0,0,1"]
FIZ_Q = ["h_fizz:2,2,1,3,0,0,0", "h_fizz:3,2,1,2,0,0,0", "h_fizz:2,2,1,2,1,0,0"]
FIZ_T = ["h_fizz:3,2,1,3,0,0,0", "h_fizz:3,3,2,2,0,0,0", "h_fizz:2,2,1,3,1,0,0", "h_fizz:2,2,1,2,2,0,0", "h_fizz:2,2,1,2,0,0,1"]
RACE_Q = ["h_race:2,2,1,1,2,0,0,0", "h_race:3,3,63,0,2,0,0,0", "h_race:3,2,63,0,1,0,0,0", "h_race:3,3,63,1,1,0,0,0", "h_race:2,2,63,1,1,1,0,0", "h_race:2,2,1,1,1,0,1,0", "h_race:2,2,1,1,1,0,0,1"]
RACE_T = ["h_race:4,2,1,1,2,0,0,0", "h_race:4,3,63,1,1,0,0,0", "h_race:3,2,63,1,1,1,0,0", "h_race:2,2,63,1,1,2,0,0", "h_race:2,2,1,0,2,0,2,0", "h_race:2,2,63,1,1,0,0,1"]
PROTO_Q = ["h_proto:2,3,0", "h_proto:2,2,1", "h_proto:3,2,0"]
PROTO_T = ["h_proto:2,4,0", "h_proto:2,3,1", "h_proto:3,3,0"]
DOWN_Q = ["h_down:1,1,0,1,1,0,0", "h_down:2,2,0,1,0,0,0", "h_down:2,1,0,1,1,0,0", "h_down:2,1,0,1,0,1,0", "h_down:3,1,0,1,0,0,0", "h_down:2,2,1,1,1,0,0"]
DOWN_T = ["h_down:1,1,0,1,2,0,0", "h_down:2,1,0,1,2,0,0", "h_down:3,2,0,1,0,0,0", "h_down:2,2,0,1,0,0,1", "h_down:2,2,1,1,1,1,0"]
MARK_Q = ["h_mark:2,1,2,0,0,0", "h_mark:1,0,2,1,0,1", "h_mark:2,1,2,1,1,0"]
BACK_Q = ["h_back:2,2,1,0,0", "h_back:3,1,1,0,0", "h_back:2,1,1,1,0"]
BACK_T = ["h_back:3,2,2,0,0", "h_back:3,1,1,1,0", "h_back:2,1,0,0,1"]
MARK_T = ["h_mark:3,1,4,1,0,0", "h_mark:2,1,2,1,0,1", "h_mark:2,0,3,1,1,0", "h_mark:2,0,2,2,0,0"]
E = lambda rig, l: [(rig, e) for e in l]
check("C01", E("exec", RUN_Q + SES_Q + LIM_Q[:2]), E("exec", RUN_T + SES_T + LIM_T[:2]), ["failed", "succeeded", "poisoned", "new session", "reused", "limit reached"],
      "every dag on up to 4 (thorough 5) tasks, every outcome (exit 0, exit 1, unstartable, killed), 2 durations, 2 runners, up to 2 (3) executions and sessions; " + SCHED + ": 2 delays, 1 select, 1 preemption (thorough 3/2/1)",
      "larger graphs, more deviations, remote runners (see C14)")
check("C02", E("exec", RUN_Q) + E("server", RACE_Q[:5]), E("exec", RUN_T) + E("server", RACE_T), ["failed", "succeeded", "poisoned"],
      "every dag on up to 4 (thorough 5) tasks, every outcome, 2 durations, 2 runners, with and without console tasks; " + SCHED + ": 2 delays, 1 select, 1 preemption (thorough 3/2/1)", "larger graphs, more deviations")
check("C03", E("exec", LIM_Q) + E("server", FIZ_Q) + E("py", ["h_py_limits:2,0"]), E("exec", LIM_T) + E("server", FIZ_T) + E("py", ["h_py_limits:3,1"]), ["limit reached", "limit not reached", "cancelled", "old task finished"],
      "every dag on up to 3 (thorough 4) tasks, every pattern of failures, durations from 0, 3, 5, 6 s around the five-second cut-off, limits 1 and 2, 2 and 3 runners; " + SCHED + ": 1 delay, 2 selects, 1 preemption", "larger graphs, more deviations, remote runners")
check("C04", E("exec", RUN_Q[:6] + RUN_Q[8:] + LIM_Q + INT_Q) + E("server", DOWN_Q[:3]) + E("runner", ["h_logged"]), E("exec", RUN_T + LIM_T + INT_T) + E("server", DOWN_T + RACE_T) + E("runner", ["h_logged"]), ["failed", "succeeded", "limit reached", "interrupted", "killed", "success logged", "failure logged"],
      "the executions of C02, C03 and C05", "remote runners (see C12, C14), failing writes to the log")
check("C05", E("exec", INT_Q), E("exec", INT_T), ["interrupted", "killed", "finished before"],
      "every dag on up to 2 (thorough 3) tasks with durations 0, 2, 1000 s and any outcome, an interrupt at multiples of half a second up to 4 s, processes that die of it or ignore it; " + SCHED + ": 1 delay, 1 select, 1 preemption",
      "an interrupt before the signal handler is installed; remote runners")
check("C06", E("logfile", ["h_history:4,2", "h_crash:2,1", "h_entry:0,1", "h_entry:1,2", "h_entry:2,1", "h_entry:3,1", "h_entry:4,1"]) + E("py", ["h_py_load:2,2"]),
      E("logfile", ["h_history:5,2", "h_history:4,3", "h_crash:3,1", "h_crash:2,2"] + [f"h_entry:{k},2" for k in range(5)]) + E("py", ["h_py_load:2,3"]), ["reopened", "entry", "cut inside an entry", "cut before the newline", "cut between entries"],
      "all histories of 4 (thorough 5) entries and session changes over 2 (3) keys, 3 statuses and 2 storage roots, cut by a crash at every byte; every entry kind with texts of 1 to 2 characters over 10 (ASCII, escapes, multi-byte)",
      "longer histories; data of a crashed machine (as opposed to process) that the disk lost or reordered; failing writes")
check("C07", E("exec", SES_Q) + E("py", ["h_py_load:2,2"]), E("exec", SES_T) + E("py", ["h_py_load:2,3"]), ["new session", "reused", "loaded"],
      "all histories of 2 (thorough 3) executions or sessions over every dag on up to 4 tasks, any outcome and target", "longer histories")
check("C08", E("exec", SES_Q) + E("py", ["h_py_sessions:2,2,1,0,0"]), E("exec", SES_T) + E("py", ["h_py_sessions:2,3,1,0,0"]), ["new session", "reused", "failure not repeated"],
      "all histories of 2 (thorough 3) executions or sessions over every dag on up to 4 tasks, any outcome and target, failures repeated or not", "longer histories, larger graphs")
check("C16", E("token", ["h_token_seq:3", "h_token_race:2,2", "h_token_race:3,3"]), E("token", ["h_token_seq:5", "h_token_race:3,4", "h_token_race:4,3"]), ["hard", "soft", "cancelled", "spared"],
      "sequences of 3 (thorough 5) cancellations with arbitrary 64-bit cut-offs and start times; 3 concurrent cancellers with 3 (4) preemptions", "longer sequences")
check("C17", E("token", ["h_flag:2,3", "h_counter:2,3"]), E("token", ["h_flag:3,4", "h_counter:3,4"]), ["set meanwhile", "set before", "woken", "counted"],
      "2 (thorough 3) concurrent setters or incrementers against a waiter, 3 (4) preemptions at atomic operations", "more threads")
check("C18", E("runner", ["h_output:2,1,2,2,1", "h_output:5,4,3,2,0", "h_text:3", "h_big:4", "h_logged", "h_values:5", "h_input:2,8,0,4,0,1", "h_input:6,4,6,4,1,1"]) + E("py", ["h_py_args:2,2"]),
      E("runner", ["h_output:5,4,3,2,1", "h_output:7,6,5,3,0", "h_text:4", "h_big:4", "h_logged", "h_values:6", "h_input:10,4,10,5,1,1", "h_input:6,4,6,4,2,1"]) + E("py", ["h_py_args:3,3"]),
      ["exit 0", "exit code", "signal", "text", "large output", "large input", "success logged", "failure logged", "not UTF-8", "values", "no values", "all input read", "part of the input read", "input ignored"],
      "outputs and inputs of up to 6 symbolic bytes through pipes of 2..8 bytes, all write orders and chunk sizes, any 8-bit exit code and any signal, with or without a core dump; outputs and input of 1, 4097, 8192, 8193, 65536, 65537, 2^20+1 and 2.5 million bytes through pipes of 65536; every output of 3 (4) bytes over 7 that make valid and invalid UTF-8; every fd3 text of 5 (thorough 6) characters over the 8 the syntax distinguishes",
      "other amounts of data, texts on descriptor 3 that are not UTF-8, other descriptors than 3 and the input's")
check("C24", E("logfile", ["h_lock:2,1", "h_died", "h_foreign:2", "h_foreign:3"]) + E("py", ["h_py_version:8"]), E("logfile", ["h_lock:2,1", "h_lock:3,1", "h_died", "h_foreign:4"]) + E("py", ["h_py_version:20"]), ["opened", "refused", "died", "foreign", "accepted"],
      "2 (thorough 3) openings and closings by 3 sessions, 2 further ones let in at any operation on the files; every log of 3 (4) entries with headers of 3 workflows and 5 version numbers",
      "more sessions; file systems without advisory locks")
REMOTE = "the real ExecGraph::execute, tracker, router and handlers, with requests delivered through a model of hyper and axum's extractors"
check("C09", E("server", RACE_Q + PROTO_Q), E("server", RACE_T + PROTO_T), ["ran", "start", "end with more work"],
      "every dag on up to 3 (thorough 4) tasks with affinities from two remote runner types (1 and 63) or both, 2 to 3 runners working at once, and every sequence of 3 (4) requests; " + SCHED + ": 1 delay, 1 select, 1 preemption; " + REMOTE,
      "more types at once; affinity 0 (never queued, see DESIGN.md)")
check("C10", E("server", ["h_poll:1", "h_proto:2,2,0", "h_proto:3,2,0"] + RACE_Q + DOWN_Q[:3] + FIZ_Q[:2] + BACK_Q), E("server", BACK_T + ["h_poll:1"] + PROTO_T + RACE_T + DOWN_T + FIZ_T),
      ["at once", "held back", "timed out", "woken", "observed", "still running", "status after the limit"],
      "the status after every request of C14's sequences, half-way between the events of C09's executions, and after the shutdowns of C03 and C25; one long poll at 3 moments with 4 tags, minimum times and time-outs from 0, 1, 499, 500, 1500, 2100 ms against three additions of work",
      "the reported rate, latencies and mean duration (see C27 for the latter)")
check("C13", E("server", ["h_auth:0,0", "h_auth:1,1", "h_auth:1,8", "h_auth:2,0", "h_auth:3,0"]), E("server", ["h_auth:0,0", "h_auth:1,1", "h_auth:1,3", "h_auth:1,12", "h_auth:1,24", "h_auth:2,0", "h_auth:3,0"]), ["not prolonged", "unchanged"],
      "every runner endpoint, with no authorization, every other token of the same length that differs in 1 or 8 (thorough 3, 12, 24) adjacent bytes, every prefix of the token and every extension by a byte, and 6 malformed headers; from the job that holds a task and another one",
      "tokens of other lengths; timing; the status endpoint, which is public by design, and the admin socket")
check("C14", E("server", PROTO_Q + RACE_Q), E("server", PROTO_T + RACE_T), ["begun", "begun again", "end", "end with more work", "end with work it made ready", "foreign", "repeated", "start", "unknown"],
      "every sequence of 3 (thorough 4) start, begun, ping and end requests after a first hand-out, from 2 jobs, about known, unknown, repeated and foreign transactions, with one (one) colliding random transaction id, over every dag on 2 to 3 tasks; then 2 to 3 honest runners at once, " + SCHED + ": 1 delay, 1 select, 1 preemption; " + REMOTE,
      "longer sequences; requests that do not decode (see C20)")
check("C15", E("server", MARK_Q + BACK_Q), E("server", MARK_T + BACK_T), ["confirmed", "not confirmed", "came back"],
      "a cancellation request at every second up to 2 (thorough 4) against a runner of that job and one of another on every dag of up to 2 (3) tasks; tasks that come back from 1 or 2 cancelled jobs, on every dag of up to 3 tasks below a first one, with a soft shutdown at none or three moments; " + SCHED + ": 1 delay, 1 select, 1 preemption (thorough 2/1/1); " + REMOTE,
      "more cancelled jobs; more runners")
check("C25", E("server", DOWN_Q + ["h_admin:3,2"]), E("server", DOWN_T + ["h_admin:4,3"]), ["shut down", "still running", "cut off", "changed", "paced"],
      "up to 2 (thorough 3) changes of the launch rate (1, 2, 1000) and the provisioner information at two times each; a soft or hard shutdown through the admin endpoint at 0, 0.5, 1.5, 2 or 3 s while 1 or 2 runners work on every dag on up to 3 tasks, any result, tasks handed out but not reported as begun; " + SCHED + ": 1 delay, 1 select (thorough 2/1, 1 preemption); " + REMOTE,
      "unix socket and its permissions; a second shutdown request")
check("C22", E("exec", RUN_Q), E("exec", RUN_T), ["succeeded"], "the executions of C02", "larger graphs")
check("C20",
      E("wire", [f"h_request:{k},{j}" for k in range(9) for j in (0, 1)] + [f"h_reply:{k},{j}" for k in range(4) for j in (0, 1)]
        + ["h_size:0,100,40", "h_size:1,100,40", "h_size:0,0,3", "h_size:1,0,3", "h_size:0,16360,40", "h_size:1,16360,40", "h_headers:0", "h_headers:1"]
        + [f"h_corrupt:{k},{d},0" for k in (0, 1, 2) for d in (0, 1)] + ["h_corrupt:1,0,1", "h_corrupt:1,1,1"] + [f"h_bytes:{k},4,0" for k in (0, 1, 2)] + ["h_bytes:3,2,0", "h_bytes:2,3,1"]) + [("server", "h_large:4")],
      E("wire", [f"h_request:{k},{j}" for k in range(9) for j in (0, 1)] + [f"h_reply:{k},{j}" for k in range(4) for j in (0, 1)]
        + ["h_size:0,0,300", "h_size:1,0,300", "h_size:0,16300,200", "h_size:1,16300,200", "h_headers:0", "h_headers:1"]
        + [f"h_corrupt:{k},{d},{j}" for k in (0, 1) for d in (0, 1) for j in (0, 1)] + ["h_corrupt:2,0,0", "h_corrupt:2,1,0"] + [f"h_bytes:{k},5,0" for k in (0, 1, 2)] + ["h_bytes:3,2,0", "h_bytes:2,4,1"]) + [("server", "h_large:4")],
      ["arrived", "long", "short", "right headers", "unknown format", "cut", "one byte changed", "still decodes", "refused", "result of any size"],
      "every message of every kind with 32- and 64-bit numbers, texts of up to 2 pieces over 9 kinds of characters, any words and input of up to 2 bytes; lengths 0..2, 100..139, 16360..16399 (thorough 0..299, 16300..16499) with any byte at either end or the middle; a whole execution's result with 1, 130, 100000 and 2200000 bytes; every combination of 6 content types and 5 encodings; "
      "every single byte of three messages replaced by any other and every cut; any 2 to 5 bytes as a message",
      "lz4 itself (a C library, modelled as a length-prefixed copy), HTTP framing, JSON numbers other than the representatives")
check("C23", E("exec", ["h_add:2,2,1", "h_add:3,2,1", "h_add:3,3,2", "h_add:4,2,1"]), E("exec", ["h_add:3,3,2", "h_add:4,3,1", "h_add:4,2,2"]), ["added", "known key", "empty command", "reserved descriptor", "unknown dependency"],
      "sequences of 2 to 4 additions over 2 or 3 keys with empty or other commands, inputs at the descriptor reserved for values, and up to 2 arbitrary 32-bit dependencies, followed by an execution with any outcomes", "longer sequences; the Python layer's own checks")
check("C26", E("exec", RUN_Q + LIM_Q[:3] + INT_Q[:2] + SES_Q) + E("server", RACE_Q[:5] + FIZ_Q[:2] + DOWN_Q + PROTO_Q[1:]) + E("py", ["h_py_args:2,2"]), E("exec", RUN_T + LIM_T[:3] + INT_T[:3] + SES_T[:3]) + E("server", RACE_T[:4] + FIZ_T[:3] + DOWN_T + PROTO_T),
      ["called after success", "called after failure", "not called", "cancelled", "killed", "shut down"],
      "the executions of C02, C03, C05, C08, C14 and C25 with a preamble and a postamble on every task", "callbacks that fail (the execution panics by design); the Python objects behind them")
check("C27", E("exec", ["h_display:1,4", "h_display:2,2", "h_mean:1,2", "h_mean:2,4", "h_mean:3,5"]) + [("server", "h_mean_status:3")], E("exec", ["h_display:1,5", "h_display:2,3", "h_display:3,2", "h_mean:4,6", "h_mean:5,8"]) + [("server", "h_mean_status:4")],
      ["given", "continuation", "tab", "old ones dropped", "mean duration", "no mean yet"],
      "commands of one word of 4 (thorough 5) and two words of 2 (3) characters over blank, tab, backslash, newline, carriage return, a letter and a two-byte character; up to 5 (8) arbitrary durations below 2^31 s through windows of 1 to 3 (5); the status of an execution of 3 (4) remote tasks with 3 durations and 2 results",
      "the launch rate estimate (floating point exponentials); the window of 100 in whole executions; command lines that are not UTF-8 (refused by a panic)")

REM_Q = ["h_remote:2,1,7,0,0", "h_remote:2,1,7,0,1", "h_remote:2,1,3,0,4", "h_remote:2,0,0,1,4", "h_remote:2,1,7,0,2", "h_remote:2,1,7,0,16", "h_remote:1,1,7,0,98", "h_remote:1,1,7,0,10",
         "h_remote:1,1,3,0,3", "h_remote:2,0,0,0,144", "h_remote:1,0,0,1,98", "h_remote:2,0,0,1,128", "h_remote:1,1,7,1,32", "h_remote:1,1,3,0,104"]
REM_T = ["h_remote:3,1,7,0,0", "h_remote:2,2,7,0,16", "h_remote:2,1,7,1,0", "h_remote:3,1,7,0,1", "h_remote:2,1,7,1,4", "h_remote:2,2,3,0,2", "h_remote:1,1,7,1,98", "h_remote:1,1,7,0,106", "h_remote:2,0,0,1,98", "h_remote:1,1,7,0,127", "h_remote:2,1,3,1,128"]
check("C19", E("remote", REM_Q), E("remote", REM_T),
      ["all went well", "no answer", "broken connection", "error", "late answer", "nonsense", "given up", "time limit", "cancelled", "unstartable", "no more work", "a process is left behind"],
      "the real main() of the remote runner with up to 2 (thorough 3) tasks of 0 to 300 s, any exit code or signal, commands that cannot be started, ignore SIGTERM, leave a process behind (holding their pipes or not) or get input; "
      "one (2) misbehaviour of the controller at any request: no answer any more, a broken connection before or after the request arrived, an error, an answer that is 10 or 29 s late or nonsense; limits on asking for work of 0, 20 and 100 s, "
      "on the duration of 100, 120, 121 and 200 s; SIGUSR1 and slurm errors at 3 and 2 times; " + SCHED + ": 1 delay",
      "several runners on one machine; more than one misbehaviour (thorough: two); real process groups, inotify and /proc (models)")

PY_Q = ["h_py_sessions:1,3,0,1,0", "h_py_sessions:2,2,1,1,0", "h_py_args:2,2", "h_py_version:8"]
PY_T = ["h_py_sessions:1,2,0,1,2", "h_py_sessions:2,2,0,1,0", "h_py_sessions:2,3,1,0,0", "h_py_sessions:3,2,1,1,0", "h_py_args:3,3", "h_py_version:20"]
check("C28", E("py", PY_Q), E("py", PY_T), ["crash", "ran", "reused", "failure kept", "console", "input", "local", "accepted", "refused"],
      "the real PyExecGraph over 2 and 3 sessions (thorough: up to 3 tasks, chained or not) with any results, storage roots and rerun settings, each session complete or cut off after any entry of the log; a run count passed on to the postamble in 2 (3) sessions; logs of 8 (20) version numbers",
      "CPython itself (objects, conversions and the GIL are a model); a session whose list of storage roots does not extend the earlier one, whose positions then name other places")
PRINT_Q = ["h_py_print:2,1,0,0,0", "h_py_print:3,1,2,0,0", "h_py_print:3,1,4,0,0", "h_py_print:1,2,1,0,0", "h_py_print:1,2,0,0,0", "h_py_print:1,1,0,1,0", "h_py_print:1,1,0,0,1"]
PRINT_T = ["h_py_print:3,1,0,0,0", "h_py_print:3,1,2,0,1", "h_py_print:2,2,2,0,0", "h_py_print:2,1,0,2,0", "h_py_print:2,1,0,0,1", "h_py_print:1,2,1,1,0", "h_py_print:1,1,0,0,2"]
check("C29", E("py", PRINT_Q), E("py", PRINT_T), ["finished", "FIZZLED", "FAILED", "long output", "shutting down"],
      "the real PyExecGraph, log printing and std's buffered writers: executions of 1 to 3 tasks, ended early by 1 or 2 fast failures or not, and a second execution, one or two sessions with their logs in one folder or in two, outputs of none, one line and a line with an unfinished one of 1100 bytes, any results, a terminal or a file as console; 1 (2) short writes; " + SCHED + ": 1 (2) delays",
      "colours; a console that fails (printing panics by design); several threads printing at once")
