"""The properties (written to properties.jsonl by gen.py)."""
P = []


def p(id, title, statement, over, quant, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=quant), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {}))))


p("C01", "A task runs only after all its dependencies succeeded",
  "A task's process is launched (and logged as started) only after every task it depends on has finished successfully, in this execution, an earlier execution of the same session, or an earlier session recorded in the log. "
  "A task below a failed, cancelled or unstartable task is never launched.",
  "inputs schedules histories", "every dependency graph, every combination of task outcomes, every interleaving of runners, bookkeeping and timers, and every sequence of executions",
  "Tests run a few fixed graphs with real timing; outcomes, schedules and multi-execution histories are not varied together.",
  "src/sync.rs src/execgraph.rs src/localrunner.rs", [("n_unmet_deps / poisoned bookkeeping", "src/sync.rs _finished_bookkeeping_2"), ("edge and node filtering", "src/execgraph.rs get_subgraph")],
  ["process launches", "log entries"])
p("C02", "Every runnable task runs exactly once and the execution ends with true counts",
  "An execution terminates; each task whose dependencies succeed is launched exactly once, and no task more than once. "
  "The returned failure count and list of finished tasks are exactly those of the tasks that ran, in an order in which dependencies come before dependents.",
  "inputs schedules", "every dependency graph, outcome assignment and interleaving of runners, background service and timers",
  "Duplicate hand-outs, lost wake-ups and miscounts depend on interleavings that tests sample once per run.",
  "src/sync.rs src/execgraph.rs src/localrunner.rs", [("taken flag, priority channels", "src/sync.rs ReadyTrackerClient::recv"), ("n_ready_or_inflight", "src/sync.rs background_serve"), ("finished_order", "src/execgraph.rs execute")],
  ["return value of execute", "process launches"])
p("C03", "The failure limit stops launching, spares old tasks and cancels young ones",
  "Once the allowed number of quick failures (under five seconds) has been recorded, no further task becomes ready or is launched, tasks running for less than five seconds are cancelled, and tasks running longer are left to finish with their result recorded. "
  "Below the limit nothing is left out or interrupted, and in both cases the execution ends.",
  "inputs schedules", "every graph, failure pattern, task duration, limit, and interleaving of the shutdown with running and waiting runners",
  "Shutdown races between recv, cancellation and the event loop need particular interleavings and times; tests use one.",
  "src/sync.rs src/localrunner.rs src/fancy_cancellation_token.rs", [("fizzle counting and soft shutdown", "src/sync.rs background_serve"), ("soft cancellation by start time", "src/localrunner.rs run_local_process_loop")],
  ["process launches and kills", "log entries", "return value of execute"])
p("C04", "The log tells each task's life in order and completely",
  "For each task the log has ready, started and finished in this order, each at most once per execution; every started task gets a finished entry, also when the execution is interrupted or shut down; and every launched task is in the log. "
  "The recorded status is the exit code, the negated signal number, or a cancelled/disconnected marker for a task that did not get to finish.",
  "inputs schedules fault_sequences", "every graph, outcome, failure limit, interrupt time and interleaving",
  "The existing tests read the log after one schedule; entries lost or out of order during a shutdown race are not reached.",
  "src/sync.rs src/logfile2.rs src/localrunner.rs", [("event loop writes", "src/sync.rs background_serve"), ("drain", "src/sync.rs drain")], ["log file"])
p("C05", "After an interrupt the execution ends promptly and leaves nothing running",
  "When the user interrupts an execution, it returns promptly, launches nothing more, leaves no task process running, terminates its process group, and keeps the results of tasks that had finished; an interrupted task is never recorded as a success.",
  "inputs schedules fault_sequences", "every interrupt time relative to every task's launch and end, every interleaving, processes that react to the signal or ignore it",
  "The tests send at most one signal at one time.",
  "src/sync.rs src/execgraph.rs src/localrunner.rs", [("ctrl_c branch", "src/sync.rs background_serve"), ("hard cancellation, join, drain", "src/execgraph.rs execute"), ("kill_on_drop", "src/localrunner.rs")], ["process table", "log file"])
p("C06", "What the log recorded survives reopening and crashes",
  "Reopening a log file yields exactly the statuses and run counts its entries describe. "
  "After a crash that loses any suffix of the bytes written, the file can be reopened, everything completely recorded before the cut is still known, nothing else is, and later sessions can append to it.",
  "inputs histories crash_points", "every history of entries and sessions, every byte position at which a crash can cut the file",
  "No test cuts a log file; with a buffered writer every prefix of the bytes is a possible crash state.",
  "src/logfile2.rs", [("load_runcounts", "src/logfile2.rs LogFile::load_runcounts"), ("write", "src/logfile2.rs LogFile::write")], ["LogFile::new", "has_success, has_failure, runcount"])
p("C07", "The log splits into current and outdated entries without loss or overlap",
  "Reading a log as current and outdated gives as current the latest session's header, its entries, and for every result it reuses that result's ready, started and finished entries; everything else is outdated, in file order. "
  "No key is in both, and nothing that is current is listed as outdated, for any sequence of sessions.",
  "inputs histories", "every history of sessions with runs, reruns and reuse",
  "Tests check one or two hand-written histories.",
  "src/logfile2.rs src/execgraph.rs", [("backward pass over backrefs", "src/logfile2.rs LogFileSnapshotReader::read_current_and_outdated"), ("backref writing", "src/execgraph.rs get_subgraph")], ["read_current_and_outdated"])
p("C08", "An execution runs exactly the tasks that are needed and not yet done",
  "An execution runs the requested target and its transitive dependencies (or all tasks), except those already done in this session or recorded as successful in the log, and except recorded failures (and what depends on them) when failures are not to be repeated; results it reuses from earlier sessions are referenced in the log, and the reported counts cover only what ran.",
  "inputs histories", "every graph, target, outcome history and sequence of executions and sessions, with and without repeating failures",
  "Tests cover a few fixed two-step histories.",
  "src/execgraph.rs src/logfile2.rs", [("get_subgraph", "src/execgraph.rs get_subgraph"), ("completed set", "src/execgraph.rs execute")], ["process launches", "log file", "return value of execute"])
p("C09", "A task goes only to one runner whose type its affinity allows",
  "However many runners of whatever types ask concurrently, each ready task is handed to exactly one of them, of a type in the task's affinity set; a waiting runner of an allowed type gets it; and among ready tasks for a type a runner gets one of highest priority.",
  "inputs schedules configurations", "every assignment of affinities and priorities, every set of concurrent runner types and interleaving",
  "The per-type queues share claims through an atomic flag; double claims and lost tasks need particular interleavings.",
  "src/sync.rs", [("taken flag across the 64 queues", "src/sync.rs ReadyTrackerClient::recv"), ("add_to_ready_queue", "src/sync.rs")], ["recv results", "GET /start"])
p("C10", "The queue status equals the true numbers of ready and running tasks",
  "Whenever the system is at rest, the status reports for each affinity set exactly the number of tasks waiting and of tasks handed out and unfinished, and the true total and unready counts; after a shutdown it reports nothing ready. "
  "A long poll returns no later than its timeout, not before its minimum time, and at once when work was added after the given tag.",
  "inputs schedules histories", "every history of additions, hand-outs, completions and shutdowns, every poll parameter and timing",
  "Tests look at one status at one moment.",
  "src/sync.rs src/server.rs src/async_flag.rs", [("queuestate", "src/sync.rs"), ("get_queuestate", "src/sync.rs ReadyTrackerClient::get_queuestate")], ["GET /status"])
p("C11", "The launch rate limit is never exceeded and never starves",
  "With a limit of r launches per second, no window of time sees more launches than the limit and its burst allow, for any arrival times and any number of concurrent requesters; a request that waits as told is granted; and changing the limit takes effect without granting extra launches or blocking forever.",
  "inputs schedules", "every rate of a representative set, every sequence of request times in nanoseconds, concurrent requests interleaved at every atomic operation",
  "Tests sample a few rates with the real clock.",
  "src/time/gcra.rs", [("theoretical arrival time, compare-and-swap loop", "src/time/gcra.rs RateLimiter")], ["check, until_ready"])
p("C12", "A runner that stops pinging is given up on time and one that pings never is",
  "A task on a remote runner from which no ping arrived for the ping timeout (35 s) is recorded as failed (disconnected) within two ticks of the timer (about 0.3 s) of it; a runner that pings more often than that keeps its task; and a completed task never times out.",
  "inputs schedules histories", "every ping timing and history of starts, pings and ends relative to the timer's ticks",
  "Real-time tests cannot scan thirty-second timeouts at tick resolution.",
  "src/time/timewheel.rs src/server.rs", [("timer wheel", "src/time/timewheel.rs TimeWheel"), ("reap_pings_forever, ping_handler", "src/server.rs")], ["log entries", "HTTP responses"])
p("C13", "Requests without this workflow's token change and reveal nothing",
  "A request to the runner endpoints whose bearer token differs from the workflow's, or is missing or malformed, is rejected and neither changes the state of any task or connection nor hands out work.",
  "inputs configurations", "every endpoint, every token and header combination, every state of the server",
  "Tests use the right token.",
  "src/server.rs", [("authorization checks", "src/server.rs handlers")], ["HTTP responses", "log file", "queue status"])
p("C14", "Each hand-out to a remote runner is accounted for exactly once",
  "A task given out over HTTP is finished by at most one request that names its transaction from the job it was given to; results for unknown or closed transactions or from another job are refused without effect on any task, and a repeated begin has no further effect; a runner that asks for more work with its result gets a task made ready by it when there is one; and two open hand-outs never share a transaction.",
  "inputs schedules histories", "every interleaved sequence of start, begun, ping, end requests, repeated and out of order, with equal or different transaction numbers and jobs",
  "Tests follow the normal protocol with a well-behaved runner.",
  "src/server.rs", [("connections map", "src/server.rs end_handler, start_request_impl")], ["HTTP responses", "log file"])
p("C15", "A job marked as cancelled gets no work and a job with work is not marked",
  "After the server confirms that a job is marked for cancellation, no request of that job is ever given a task, and a job that holds a task at that moment is not confirmed; no task is lost or run twice by it.",
  "inputs schedules", "every interleaving of marking with start and end requests of the same and other jobs",
  "The race between the check and the hand-out is between two requests in flight.",
  "src/server.rs", [("cancelled_slurm_jobids", "src/server.rs mark_slurm_job_cancelation, start_handler")], ["HTTP responses"])
p("C16", "A cancellation is seen by exactly those it applies to and never weakens",
  "A waiter for soft cancellation returns if and only if a hard cancellation or a soft one with a cut-off before its start time is in force, a waiter for hard cancellation only for a hard one; no sequence or race of cancellations misses a waiter or turns a hard cancellation back into a soft one.",
  "inputs schedules", "every sequence of cancellations with any cut-off times, every start time, concurrent cancellers and waiters",
  "Times and races are sampled.", "src/fancy_cancellation_token.rs", [("watch channel", "src/fancy_cancellation_token.rs CancellationToken")], ["soft_cancelled, hard_cancelled, is_soft_cancelled"])
p("C17", "Flags and counters never lose a wake-up",
  "A task waiting for a flag wakes if it is set before or during the wait; one waiting for a counter wakes exactly when the counter has reached the value asked for; concurrent setters, resetters and increments lose nothing.",
  "schedules histories", "every interleaving of waiters with setters and increments at every atomic operation",
  "Lost wake-ups need a setter between the waiter's check and its registration.", "src/async_flag.rs", [("AsyncFlag, AsyncCounter", "src/async_flag.rs")], ["wait, load"])
p("C18", "A local task's input, output, values and exit status are passed on faithfully",
  "A local task's process gets its input completely at the descriptor asked for, whatever the order in which it reads and writes; everything it writes to stdout, stderr and descriptor 3 is collected whole; its exit code or signal is reported as such; and key-value lines on descriptor 3 are parsed by shell word rules with malformed lines dropped.",
  "inputs schedules", "all sizes relative to the pipes' capacity, all orders of reads and writes, all exit statuses, all texts over the characters the value syntax distinguishes",
  "Tests use small inputs and cooperative processes.", "src/localrunner.rs", [("wait_with_output, feed_input", "src/localrunner.rs"), ("fd3_values", "src/localrunner.rs ChildOutput")], ["log file", "ChildOutput"])
p("C19", "The remote runner reports each task truthfully and stops when it should",
  "The remote runner runs each command it is given once and reports its begin and its true result with output and values; it gives up (and stops its process) when the controller stops answering pings; it asks for more work only while allowed; and it signals a task shortly before its time limit.",
  "inputs schedules fault_sequences", "every server behaviour: delayed, failing or missing responses, every process outcome and timing",
  "Integration tests run it against a healthy controller.", "src/bin/execgraph-remote.rs", [("run_command", "src/bin/execgraph-remote.rs")], ["HTTP requests", "processes and signals"])
p("C20", "Messages survive the wire unchanged in both encodings",
  "Any message sent by either side as postcard, compressed or not, or as JSON decodes on the other side to the same message; malformed or unknown encodings are rejected with an error and never crash the receiver.",
  "inputs", "every message content up to a size on both sides of the compression threshold, every corruption of headers and bytes",
  "Tests exchange a few messages.", "src/http_extensions/axum.rs src/http_extensions/reqwest.rs src/http_extensions/common.rs src/httpinterface.rs", [("Postcard extractor/response", "src/http_extensions/axum.rs"), ("RequestBuilderExt, ResponseExt", "src/http_extensions/reqwest.rs")], ["HTTP bodies"])
p("C21", "Closure and priorities are right for every graph, and cycles are reported",
  "The transitive closure has an edge exactly where the graph has a path, the priority of a task is the length of the longest chain of dependencies leading to it, and a cyclic graph is reported as an error.",
  "inputs", "every directed graph up to a number of nodes", "Tests use a handful of graphs.", "src/graphtheory.rs", [("transitive_closure_dag, tlevel_dag", "src/graphtheory.rs")], ["return values"])
p("C22", "Never more local processes than allowed, console tasks one at a time",
  "At every moment at most the requested number of ordinary local processes run, and at most one console task, which has the terminal.",
  "inputs schedules", "every graph, affinity, duration and interleaving", "Peaks are not observed by tests.", "src/execgraph.rs src/localrunner.rs", [("number of process loops", "src/execgraph.rs execute"), ("stdio of console tasks", "src/localrunner.rs")], ["process table"])
p("C23", "Adding tasks is idempotent by key and rejects invalid tasks without a trace",
  "Adding a task whose key exists returns the existing task and changes nothing; a task with an empty command, an input at descriptor 3 (which is for the values it reports) or a dependency that does not exist is refused and leaves the graph, the ids and the executions as if it had not been added.",
  "inputs histories", "every sequence of additions with equal or different keys, valid and invalid dependencies", "Tests add one bad task at the end.", "src/execgraph.rs", [("add_task", "src/execgraph.rs ExecGraph::add_task")], ["ids, get_task, task_keys"])
p("C24", "One session at a time owns a log, and a foreign or old log is refused unharmed",
  "While a session has a log open for writing, no other session can open it; after it is closed or its process died it can be opened again. "
  "A log with another format version, or with headers of different workflows, is refused with an error and not modified.",
  "inputs histories schedules", "every order of opening, closing, crashing of several sessions on the same folder; every header content", "Tests open twice in one order.", "src/logfile2.rs", [("lock file", "src/logfile2.rs LogFile::new, Drop"), ("header checks", "src/logfile2.rs load_runcounts")], ["LogFile::new"])
p("C25", "Admin requests take effect as stated, and a soft shutdown ends the execution",
  "Setting the launch rate or the provisioner information takes effect and shows in the status; a soft shutdown stops handing out work, lets running tasks finish with their results recorded and then ends the execution; a hard shutdown ends it at once.",
  "inputs schedules histories", "every moment of the request relative to task hand-outs, starts and completions", "Tests trigger a shutdown at one moment.", "src/admin_server.rs src/sync.rs src/server.rs", [("admin handlers", "src/admin_server.rs"), ("soft_shutdown_trigger", "src/sync.rs background_serve")], ["HTTP responses", "return of execute"])
p("C26", "Preambles and postambles are called as promised around each task",
  "A task's preamble is called exactly once for each run, before its process starts or it is handed to a remote runner; its postamble is called exactly once after each run, with the task's success as recorded, its run count and the number of tasks of the execution; and neither is called for a task that does not run.",
  "inputs schedules", "every graph, outcome and interleaving", "Tests only see that a callback was called.", "src/execgraph.rs src/sync.rs src/localrunner.rs", [("call_preamble, call_postamble", "src/execgraph.rs Cmd")], ["callback invocations"])
p("C27", "The displayed command is faithful and the mean duration is true",
  "The text shown for a command is its words joined by blanks, with line continuations turned into blanks and tabs made visible, unless a display text is given; the reported mean task duration is that of the tasks that recently succeeded, and zero as long as there is none.",
  "inputs histories", "every command line up to a length over the characters treated specially; every history of durations beyond the window", "Tests use single examples.", "src/execgraph.rs src/simpleringbuffer.rs", [("Cmd::display", "src/execgraph.rs"), ("RingbufferForDurationAverages", "src/simpleringbuffer.rs")], ["log entries", "GET /status"])
p("C28", "Run counts and storage roots follow the recorded history",
  "The run count given for a key is 0 if it was never ready, that of its last run if that run succeeded or never started, and one more if it failed or was interrupted, so that no two runs share one; for a success the place given is the recorded storage root (by its position in the session's list) joined with key.count; the log and the postamble get the same count, and the workflow's key stays that of its first session, whatever happened to earlier sessions.",
  "inputs histories", "every history of runs over several sessions", "Tests follow one key through two sessions.", "src/pylib.rs src/logfile2.rs", [("add_task run count rule", "src/pylib.rs PyExecGraph"), ("RuncountStatus", "src/logfile2.rs")], ["runcount, log entries"])
p("C29", "What an execution prints reaches the console and log.txt unaltered",
  "For every task that ends, the execution prints one line, a running count and the task's text if it succeeded and the kind of failure with its key and run count if not, followed by what the task wrote to stdout and stderr, unaltered; all of it reaches the console, be it a terminal or not, and, the same bytes, the log.txt beside the session's log, appended to what is there; printing never makes the execution fail. (Once an execution shuts down because of failures, only the lines of the tasks that succeed are printed.)",
  "inputs schedules histories", "every kind of console, every size of output relative to the buffers, every short write, every order of ends, several executions and sessions of one process", "Tests do not look at what is printed, and run without a terminal.", "src/logging.rs src/sync.rs", [("ConsoleAndFile", "src/logging.rs"), ("StatusTracker::send_finished", "src/sync.rs")], ["stdout", "log.txt"])
