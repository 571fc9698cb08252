"""Writes /verif/properties.jsonl (kept as code only so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Changed tested output never passes",
  "Whenever a test emits tested text that differs from the text its snapshot holds at the place it is compared with - a changed, added, removed or reordered word, number, symbol, space or line, text running past the end of the snapshot, or no snapshot at all - the test is reported as differing (or failing), never as ok. This also holds for text that is still on an unfinished last line when the test ends.",
  ["inputs", "programs"],
  "every pair (accepted output of a test program, later test program) over all output primitives: tested/ignored fragments, multi-line text, headers, anchors, lists, tables, key-values, sets, values",
  "The suite's own cases all end OK against committed snapshots; no case exercises a difference, so a comparison that accepts everything passes all 59 (the framework judges itself).",
  ["booktest/testcaserun.py", "booktest/tokenizer.py"],
  [("token-wise comparison of tested text", "testcaserun.feed_token/commit_line"), ("verdict", "testcaserun.end")],
  [("snapshot cursor", "line and remaining tokens of the snapshot that the next fed token is compared with", "TestCaseRun.exp_line/exp_tokens"), ("diffs", "number of differing lines so far; only grows", "TestCaseRun.diffs")],
  ["result printed per case", ".out/cases.txt", "exit status"])

p("C02", "Unchanged tested output always passes",
  "After a test's output has been accepted, running the test again passes as long as it emits the same tested text, whatever its ignored text (times, logs, measurements, table padding) has become. Ignored text is compared by place, not content: it may change as long as tested text later on the same line keeps its place (the number of tokens before it) and tested lines keep their line (the number of lines before them); ignored text at line ends, and blocks of ignored lines that a header or anchor follows, may also grow and shrink, as long as the block does not vanish. Accepting the output of a deterministic test therefore always makes the next run of that test pass.",
  ["inputs", "programs"],
  "every test program over all output primitives (text without carriage returns; ignored text inside a tested line keeps its number of words), accepted and then rerun with arbitrary new ignored text",
  "The suite reruns a handful of fixed programs against their snapshots; it does not vary the primitives' order, nesting, emptiness or the position of ignored text.",
  ["booktest/testcaserun.py", "booktest/tokenizer.py"],
  [("feed (ignored) vs test_feed (tested)", "testcaserun.feed/test_feed"), ("cursor moves", "testcaserun.next_exp_line/seek/jump")],
  [("last_checked", "whether the last fed token was tested", "TestCaseRun.last_checked")],
  ["result per case", ".out/cases.txt"])

p("C03", "Sections are compared with their own snapshot section",
  "A header, line anchor or prefix anchor at the start of a line moves the comparison to the next snapshot line that matches it, searching forward from the current place and then from the top, and text after it is compared with what follows there. Hence sections may be reordered and ignored lines before a header may grow or shrink without a difference, while a changed line inside any section, or an anchor missing from the snapshot, is reported as a difference.",
  ["inputs", "programs"],
  "every sequence of sections (repeated, missing, new, reordered, with varying numbers of ignored lines) against every accepted sequence of sections",
  "One suite case shuffles three sections; missing anchors, duplicate anchors, backward moves and end-of-file positions are never combined.",
  ["booktest/testcaserun.py"],
  [("seek/jump with wrap-around", "testcaserun.seek, seek_line, seek_prefix, jump"), ("header", "testcaserun.header")],
  [("exp_line_number", "snapshot cursor line", "TestCaseRun.exp_line_number")],
  ["result per case", ".out/<case>.txt report lines"])

p("C04", "Sets, lists and tables compare by content",
  "A set of single-line elements written to the test stream at the start of a line is accepted exactly when its elements, counting repeated ones, equal the snapshot's set, in any order, wherever in the test it stands; a missing or additional element is a difference. A table or list differs exactly when one of its cells, rows, columns' layout or items differs, and what follows it is compared at the right place.",
  ["inputs", "programs"],
  "all finite sets/lists/tables of short strings and numbers against all others, at the start, middle and end of a test, including empty ones",
  "The suite has one table and no set at all.",
  ["booktest/testcaserun.py"],
  [("tset", "testcaserun.tset"), ("tdf/ttable/tlist", "testcaserun.tdf")], (),
  ["result per case"])

p("C05", "A failure is a failure and can never be accepted",
  "If a test has a failed assertion, an explicit fail, an exceeded time limit, or ends with an exception (including an attempt to exit the process), its result is FAIL whatever the snapshot says and whatever the test printed before or after, including on an unfinished last line. No option, answer or later review turns a FAIL into ok or lets its output replace the snapshot.",
  ["inputs", "programs", "configurations"],
  "all programs with a failure at any position x all snapshots (equal, different, absent) x all acceptance options and review answers",
  "No suite case fails; the error path (counters, precedence over DIFF, rejection of acceptance) is never executed.",
  ["booktest/testcaserun.py", "booktest/testrun.py", "booktest/review.py"],
  [("errors counter and verdict precedence", "testcaserun.commit_line/end"), ("exception handler", "testrun.run_case"), ("accept guard", "review.interact/case_review")], (),
  ["result per case", "snapshot files", "exit status"])

p("C06", "Output and report are faithful",
  "The output file of a test is exactly the text the test emitted, tested and ignored alike, in order, each line ended by a newline, for any text; emitting text always terminates. The test's report has one line per output line and marks exactly the differing lines with '?' and exactly the failing lines with '!', each beside the snapshot line it was compared with.",
  ["inputs", "programs"],
  "all texts (any characters except carriage returns), split into fragments in any way, tested or ignored",
  "Snapshots of fixed cases only; comparison goes through the same tokenizer that writes the output, so a lossy tokenizer is invisible to the suite.",
  ["booktest/tokenizer.py", "booktest/testcaserun.py"],
  [("tokenizer", "tokenizer.TestTokenizer"), ("line commit", "testcaserun.commit_line/write_line")], (),
  [".out/<case>.md", ".out/<case>.txt", "accepted <case>.md"])

p("C07", "Snapshots change only by acceptance",
  "A case's snapshot (its .md file and its attachments) changes only when that case's result was accepted: interactively by the user, by auto-accept when the case merely differed, or by update when it was ok. Every other run, review, listing, forget, abort or failing case leaves every snapshot byte-identical, serially and in parallel.",
  ["histories", "configurations", "inputs"],
  "all histories of run/review/forget/list/print invocations over all combinations of -i -I -a -u -c -f -r -p, all answers and all test behaviours",
  "The suite never runs with -a, -u, -i or -w and never differs.",
  ["booktest/review.py", "booktest/testcaserun.py", "booktest/runs.py"],
  [("acceptance decision", "review.case_review"), ("installing output", "review.freeze_case")],
  [("snapshot", "books/<case>.md and books/<case>/", "exp_dir")],
  ["books/**"])

p("C08", "Acceptance installs exactly the run's output",
  "After a case is accepted, its snapshot is exactly the output of the run that was accepted: the same .md text and exactly the attachments that run wrote, nothing left from earlier runs or earlier snapshots. If the process is killed at any moment during it, the .md snapshot is still either the complete old or the complete new text, and a case is only ever recorded as ok when its acceptance was complete.",
  ["histories", "crash_points", "inputs"],
  "all histories of runs and acceptances with changing sets of attachments; every file-system step during acceptance as a crash point",
  "No test accepts anything and no test kills the process.",
  ["booktest/review.py", "booktest/testcaserun.py", "booktest/testrun.py"],
  [("freeze", "review.freeze_case"), ("purge of old outputs", "testcaserun.TestCaseRun.__init__"), ("record after review", "testrun.run_async")], (),
  ["books/<case>.md", "books/<case>/", ".out/cases.txt"])

p("C09", "Exit status and summary tell the truth",
  "A run or review exits with status 0 exactly when every case it executed (for a review: every recorded case) ended ok, after acceptance; otherwise, or when the run was interrupted or broke down, the status is non-zero. The printed summary counts and lists exactly the cases that did not end ok.",
  ["histories", "configurations", "fault_sequences"],
  "all mixes of ok/differing/failing/raising/exiting tests, serial and parallel, with fail-fast, quit, accept, interruption at any point",
  "The suite only ever observes status 0 of an all-ok serial run.",
  ["booktest/testrun.py", "booktest/runs.py", "booktest/review.py", "booktest/reports.py", "booktest/cli.py"],
  [("status computation", "testrun.run_async, runs.parallel_run_tests, review.review, reports.test_result_to_exit_code"), ("summary", "review.end_report")], (),
  ["process exit status", "stdout summary"])

p("C10", "The result record is exact across runs",
  "After every run or review the result record holds at most one entry per case, with the case's latest final result (after acceptance); the entries of cases that were not part of the invocation are kept unchanged. Forgetting removes exactly the selected cases' entries.",
  ["histories", "configurations"],
  "all histories of runs (serial and parallel, any selection, -c, -f, quit), reviews and forgets",
  "The suite performs one full run and never reads a previous record.",
  ["booktest/reports.py", "booktest/testrun.py", "booktest/runs.py", "booktest/review.py", "booktest/tests.py"],
  [("record file", "reports.CaseReports"), ("carry-over of unselected entries", "testrun.run_async, runs.parallel_run_tests")],
  [("cases.txt", "case, result, duration per line", ".out/cases.txt")],
  [".out/cases.txt"])

p("C11", "Continue skips exactly what already passed",
  "With the continue option a run executes exactly the selected cases whose last recorded result is not ok (or that have none), and skips exactly those recorded ok. This stays true after the previous run was aborted, interrupted or killed at any moment: results completed before are not lost, and nothing that did not pass is ever skipped.",
  ["histories", "crash_points"],
  "all histories of runs, changes of test behaviour, kills between any two cases or during a case, followed by continue runs",
  "The suite never uses -c and never kills a run.",
  ["booktest/reports.py", "booktest/testrun.py", "booktest/runs.py"],
  [("done/todo split", "reports.cases_to_done_and_todo"), ("record flushed per case", "reports.write_case")], (),
  ["executed cases", ".out/cases.txt"])

p("C12", "Fail-fast and quit stop the run",
  "With fail-fast, no further case is executed (in a serial run) or reviewed and recorded as reviewed (in a review) after the first case that did not end ok; answering quit stops a run or review after that case in the same way. All cases before that point are executed in order, and without these requests every selected case is executed.",
  ["histories", "configurations"],
  "all sequences of case outcomes x options x answers",
  "The suite neither fails nor answers prompts.",
  ["booktest/testrun.py", "booktest/review.py", "booktest/runs.py"],
  [("abort", "testrun.run_async, review.review, ParallelRunner.abort")], (),
  ["executed cases", ".out/cases.txt"])

p("C13", "Dependencies are selected, ordered and run once",
  "A run executes the selected cases plus, transitively, every dependency that is itself selected, whose stored result is missing, or (with refresh) all of them - and nothing else. Every dependency executes before its dependents and no case executes twice, for any order in which the cases are listed.",
  ["inputs", "configurations", "histories"],
  "all acyclic dependency graphs over a few cases x listing orders x selections x stored-result states x refresh",
  "The suite has a few chains, always listed and selected completely in a convenient order, with no refresh and an empty cache.",
  ["booktest/tests.py", "booktest/testrun.py", "booktest/dependencies.py"],
  [("closure", "tests.selected_names/all_method_dependencies/method_dependencies")], (),
  ["-l listing", "executed cases in order"])

p("C14", "A dependent receives its dependency's latest result",
  "Each dependency argument of a test equals the value returned by the most recent non-failing execution of that dependency (of the same book instance when the book has it), in declared order, with resources passed as their values, independent of how the in-memory cache is sized or shared, of process boundaries and of whether the value came from this run or an earlier one. A dependency without any stored result makes the dependent fail; a failing execution never replaces a stored result.",
  ["histories", "configurations", "inputs"],
  "all dependency graphs x result values x memory caches (none, dict, LRU of any size) x histories of partial reruns, serial and parallel",
  "The suite runs producer and consumer in one process with one warm cache; eviction, disk reload and failing producers never happen.",
  ["booktest/testrun.py", "booktest/dependencies.py", "booktest/cache.py", "booktest/tests.py"],
  [("two-level cache", "testrun.get_test_result/save_test_result"), ("binding", "dependencies.call_class_method_test/call_function_test")],
  [(".bin files", "pickled results", ".out/<case>.bin")],
  ["arguments seen by the test body", ".out/<case>.bin"])

p("C15", "Parallel runs respect dependencies and run each case once",
  "In a parallel run no case starts before all of its dependencies that take part in the run have finished, and every case that takes part is executed exactly once, never more of them at once than the processes asked for, for every possible timing of the workers and every number of processes.",
  ["schedules", "inputs", "configurations"],
  "all acyclic dependency graphs over a few cases x worker counts x completion orders",
  "Parallel mode is not run by the tests at all.",
  ["booktest/runs.py", "booktest/tests.py"],
  [("scheduler", "ParallelRunner.plan/thread_function")],
  [("done/scheduled", "finished and running cases", "ParallelRunner")],
  ["start/end events of test bodies"])

p("C16", "Exclusive resources are never shared in parallel",
  "Two cases that declare a common exclusive resource (equal identifiers, whatever objects they were made from) never run at the same time in a parallel run; a resource is available again once its holder finished, so every case still runs.",
  ["schedules", "inputs", "configurations"],
  "all assignments of resources to cases x dependency graphs x worker counts x completion orders",
  "Parallel mode is not run by the tests; the resource cases of the suite only run serially.",
  ["booktest/runs.py", "booktest/dependencies.py", "booktest/tests.py"],
  [("reservation", "ParallelRunner.plan/thread_function"), ("identity", "dependencies.Resource/port")],
  [("reserved_resources", "resources held by scheduled cases", "ParallelRunner")],
  ["start/end events of test bodies"])

p("C17", "A parallel run has the same outcome as a serial one",
  "For independent deterministic tests, a parallel run with any number of processes ends with the same result per case, the same exit status, the same snapshots, outputs and stored results as a serial run with the same options from the same state. Results of earlier runs lying around never stand in for results of this run.",
  ["schedules", "configurations", "histories"],
  "all suites of a few tests (ok/differ/fail/raise, with dependencies) x options -a -u -c x worker counts x completion orders x previous states",
  "Parallel mode is not run by the tests.",
  ["booktest/runs.py", "booktest/testrun.py", "booktest/reports.py"],
  [("batch reports and merge", "runs.parallel_run_tests, RunBatch"), ("fresh batch directory", "runs.prepare_batch_dir")], (),
  [".out/cases.txt", "books/**", "exit status"])

p("C18", "A broken case never blocks or hides in a parallel run",
  "A parallel run ends, also after an interruption, and a case whose execution breaks down in its worker - an exception anywhere in test, setup or result storing, an attempt to exit, the death of its process - is recorded and counted as failed while all other cases still run and are recorded.",
  ["schedules", "fault_sequences"],
  "every kind of breakdown at every case of a suite x worker counts x completion orders",
  "Parallel mode is not run by the tests; nor does any test break.",
  ["booktest/runs.py", "booktest/testrun.py"],
  [("missing or empty batch report means FAIL", "ParallelRunner.thread_function"), ("termination", "ParallelRunner.has_next/next_report/__exit__")], (),
  ["process termination", ".out/cases.txt", "exit status"])

p("C19", "Replay never reaches the real target",
  "Unless capturing is switched on, a test using function, HTTP or environment snapshots never calls the real function, never sends a real request and never reads the real variable's value; a call, request or variable without a snapshot makes the test fail instead.",
  ["inputs", "programs", "histories"],
  "all sequences of calls/requests/variables against all snapshot stores, sync and async, for functions, requests, httpx and env",
  "Without network the suite only replays recorded calls; an unrecorded call, and a real target that would answer, never occur.",
  ["booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/env.py"],
  [("lookup before call", "SnapshotFunctions.snapshot, SnapshotAdapter.lookup_snapshot, SnapshotHttpx.lookup_snapshot, SnapshotEnv.start")], (),
  ["calls counted at the real target", "result per case"])

p("C20", "Snapshots replay the recorded answer of the same call",
  "A replayed call or request returns exactly what was recorded for the same function and arguments, or for the same request (method, URL, body and non-ignored headers): the n-th identical request gets the n-th recorded answer, with status, headers and body as received; identical function calls (same function, positional and keyword arguments, all JSON-representable) get the one answer last captured for them. Different calls or requests never receive each other's answers.",
  ["inputs", "programs", "histories"],
  "all call/request sequences with equal and different arguments, bodies (text and binary), headers and orders, recorded and then replayed",
  "Fixed recorded examples only, with one or two distinct calls each.",
  ["booktest/functions.py", "booktest/requests.py", "booktest/httpx.py"],
  [("hash keys", "FunctionCall, RequestKey"), ("order marks", "mark_order/increase_order")], (),
  ["values returned to the test"])

p("C21", "Capture completes or refreshes, and keeps only what was used",
  "Completing snapshots (-s) really calls only what has no snapshot and keeps every existing answer; refreshing (-S) really calls everything and discards all old answers. After acceptance the store holds exactly the snapshots the accepted run used, and nothing is stored without acceptance; replaying the same test then needs no real call and sees the same answers.",
  ["histories", "configurations", "inputs"],
  "all histories of capture/replay/accept with changing sets of calls, for functions, requests, httpx and env",
  "The suite never captures (no network, no -s/-S).",
  ["booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/env.py", "booktest/review.py"],
  [("refresh/complete flags", "SnapshotFunctions/SnapshotRequests/SnapshotHttpx/SnapshotEnv"), ("store written to the output directory", "stop()")], (),
  ["books/<case>/.functions, .requests.json, .httpx.json, .env.json", "calls counted at the real target"])

p("C22", "Mocks and snapshots leave no trace after the test",
  "After a test that uses snapshot or mock decorators (environment, functions, requests, httpx, setup/teardown), in any nesting, the process environment, the patched functions and the HTTP libraries are exactly as before - whether the test passed, failed, raised, or a snapshot was missing at its start. Inside the test exactly the declared values are in force.",
  ["programs", "inputs", "fault_sequences"],
  "all nestings of the decorators x initially set/unset variables x recorded/unrecorded values x bodies that change or delete variables, raise, or pass",
  "Suite cases use one level of decoration and always pass; nothing checks the state afterwards.",
  ["booktest/env.py", "booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/utils.py"],
  [("start/stop pairs", "SnapshotEnv, MockEnv, MockMissingEnv, SnapshotFunctions, MockFunctions, SnapshotRequests, SnapshotHttpx, SetupTeardown")], (),
  ["os.environ and function identities after the test"])

p("C23", "Ignored request details never reach disk or the match",
  "Values of ignored headers never appear in any file written by the run and never influence which recorded answer is used; with lost request details (the default) neither headers nor bodies of requests are stored in the snapshot. Headers that are not ignored do distinguish requests.",
  ["inputs", "configurations"],
  "all header sets (any letter case), ignore settings (all, none, a list), bodies and detail settings for requests and httpx",
  "The suite replays recorded files; it never writes one from a request carrying a secret.",
  ["booktest/requests.py", "booktest/httpx.py"],
  [("header filtering before hashing", "RequestKey.__init__"), ("detail hiding", "RequestKey.to_json_object")], (),
  ["all files under the books directory"])

p("C24", "Selection picks whole path prefixes minus skips",
  "A selection selects exactly the cases whose name equals, or lies below, one of the given paths (on whole path segments), or all cases for '*' or when only skips are given, minus every case at or below a skipped path; without arguments the configured default paths apply. Listing, printing, running, reviewing and forgetting agree on the selection.",
  ["inputs", "configurations"],
  "all sets of hierarchical names sharing prefixes x all selections of paths and skips x default_tests settings",
  "The suite runs with the default selection only.",
  ["booktest/tests.py"],
  [("is_selected", "tests.is_selected")], (),
  ["-l output", "executed cases"])

p("C25", "Cleaning deletes exactly the garbage",
  "Garbage is every file (links to files included, linked directories not entered) under the books directory that is neither the index, nor the snapshot of an existing case, nor below an existing case's attachment directory; --garbage lists exactly these and --clean deletes exactly these. No file outside the books directory and no snapshot of an existing case is ever deleted, whatever the selection.",
  ["inputs", "histories"],
  "all file trees with names sharing prefixes with case names x sets of cases x selections",
  "The suite never runs --garbage or --clean.",
  ["booktest/tests.py"],
  [("garbage set", "tests.exec_parsed garbage/is_garbage")], (),
  ["file tree before/after", "stdout"])

p("C26", "Configuration is layered and every invocation stands alone",
  "Every setting takes its value from the highest layer that defines it: command line, then environment variable, then the project's .booktest, then the home directory's .booktest, then the default; settings written by --setup are read back unchanged. The options of one invocation never affect a later invocation in the same process.",
  ["configurations", "histories"],
  "all assignments of settings to layers; all histories of invocations with different options in one process",
  "The suite runs with no configuration, once per process.",
  ["booktest/config.py", "booktest/setup.py", "booktest/tests.py", "booktest/cli.py"],
  [("layering", "config.resolve_default_config"), ("per-invocation options", "tests.exec_parsed")], (),
  ["--config output", "behaviour of runs"])

p("C27", "Every test is discovered once under its documented name",
  "Detection finds every test function, test book class that needs no arguments, book instance and suite of every test file under the configured paths, exactly once per module member (the base class TestBook itself is none), in files matching the documented patterns only; names follow from path, file, class and method name with the test/book affixes removed. A module's cases keep the same order on every detection; a test book lists its methods in definition order.",
  ["inputs", "programs"],
  "all small source trees with functions, classes (parametrised or not), instances, suites and helper files, and all names over letters, cases, digits and underscores",
  "The suite has a fixed tree and five naming cases.",
  ["booktest/detection.py", "booktest/naming.py", "booktest/testbook.py", "booktest/testsuite.py"],
  [("detection", "detection.parse_test_file/detect_tests"), ("naming", "naming.*")], (),
  ["-l output"])

p("C28", "Each test's log holds exactly its own stderr and log output",
  "Everything a test writes to stderr or to logging while it runs goes to that test's .log file and to no other test's; before, between and after tests the process' own stderr and log handlers are in place again, whatever the outcome of the test. The logs option prints exactly these lines.",
  ["programs", "inputs", "fault_sequences"],
  "all sequences of tests writing to stderr/logging x outcomes (ok, differ, fail, raise) x serial/parallel",
  "One case logs one line; nothing looks at stderr or handlers after a test.",
  ["booktest/testcaserun.py", "booktest/review.py"],
  [("swap and restore", "testcaserun.open/close")], (),
  [".out/<case>.log", "sys.stderr and root handlers after each case"])

p("C29", "The memory cache is bounded and least-recently-used",
  "The bounded cache never holds more entries than its size, always returns the last value stored for a key it holds, and evicts only the least recently used entry; the no-cache variant holds nothing and always answers that it holds nothing.",
  ["histories", "inputs"],
  "all operation histories over a few keys for every size",
  "No test reaches the size limit of 8 in a way that is observable.",
  ["booktest/cache.py"],
  [("LruCache", "cache.LruCache/NoCache")], (),
  ["return values of the cache"])

p("C30", "Process setup and teardown bracket the tests",
  "When the test paths define a process setup, every test of every process that runs tests runs after the setup part and before the teardown part of that process, serially and in parallel, and teardown runs even when tests fail, raise or the run is aborted.",
  ["configurations", "schedules", "fault_sequences"],
  "all suites of a few tests with outcomes x serial/parallel x fail-fast/quit",
  "The suite checks the setup value in one passing serial test; teardown is never observed.",
  ["booktest/detection.py", "booktest/utils.py", "booktest/runs.py"],
  [("setup bracket", "runs.run_tests, RunBatch.__call__, utils.SetupTeardown"), ("lookup", "detection.detect_setup")], (),
  ["event order setup/test/teardown per process"])

p("C31", "All effects stay inside the books directory",
  "Whatever the command, a booktest invocation creates, changes and deletes files only inside the configured books directory (its .out directory included; missing directories above it are made; --setup writes the project's .booktest, --cov its coverage files), for any spelling of that directory's path - relative, absolute, trailing slash, blanks or shell characters - and works the same there.",
  ["configurations", "histories"],
  "all commands x spellings of the books path x surrounding files whose names are parts of that path",
  "The suite uses the directory 'books' only.",
  ["booktest/testrun.py", "booktest/testcaserun.py", "booktest/runs.py", "booktest/review.py", "booktest/tests.py"],
  [("directory creation and removal", "testcaserun.__init__, testrun.run_async, runs.prepare_batch_dir")], (),
  ["file tree around the books directory"])

p("C32", "The index lists every case",
  "After every completed run (also one ended by fail-fast or by quitting the review) the index lists every known case exactly once, below the headings of its path, linking to its snapshot file, whatever was selected in the run and however it ended; the summary's listing (-l, --path) names the same files.",
  ["inputs", "configurations"],
  "all lists of hierarchical case names in any order x selections x serial/parallel",
  "The committed index is rewritten, not compared, by the suite.",
  ["booktest/review.py", "booktest/testrun.py", "booktest/runs.py", "booktest/tests.py"],
  [("create_index", "review.create_index")], (),
  ["books/index.md"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
