_T = "TLA+ specification (TLC): exhaustive design check, trace validation of recorded runs, replay of generated histories"
_CMP = ("The comparison engine is specified in Compare.tla and explored exhaustively for short programs; thousands of real runs "
        "(random test programs, accepted and run again with variations and edited snapshots) are validated against it by TLC, "
        "and histories enumerated by TLC are replayed on the real code. ")
_TR = "Trusted: TLC, the harness' mapping of calls to operations, and the bounds (short programs, a fixed alphabet)."
_RUN = ("Run.tla specifies an invocation (run, review, forget, list) as small steps over the files on disk; RunMC explores all "
        "histories of two (thorough: three) invocations of a suite of three cases with kills between any two steps. Random histories of "
        "random suites, and the histories of RunMC, are executed on the real code (processes, options, answers, kills at "
        "file-system events) and every step is validated against the specification by TLC. ")
_TR2 = "Trusted: TLC, the harness' reading of the books directory, and the bounds (few cases, short histories)."
_PAR = ("Par.tla specifies the parallel scheduler (queue, processes, reserved resources); ParMC explores all schedules of all jobs of "
        "three cases with all dependency graphs, resources and process counts, with aborts. Real parallel runs are executed with every "
        "test body held at a gate and released in schedules taken from the model or at random; the recorded start and end events and the "
        "state they leave are validated by TLC against Par.tla (ParTrace) and Run.tla (RunTrace). ")
_TR3 = "Trusted: TLC, the gates in the test bodies; worker processes are forked instead of spawned so that they share the suite."
_SNAP = ("Snap.tla specifies the store of snapshots, replay, completion, refresh and acceptance for functions, requests, httpx and "
         "environment; SnapMC checks it exhaustively for small scripts. Random histories of runs (sync, async and concurrent calls, methods, "
         "redirects, custom hashes, parallel runs, reviews) are executed against real functions and a loopback server that counts, and "
         "every answer is validated against the specification. ")
_TR3 = "Trusted: the recording in harness/drv_snap.py, the answers of its server, TLC."
_PROJ = ("Project.tla and Config.tla specify what an invocation finds, names, configures, shows and deletes in a project of test files and configuration layers. "
         "Random projects are written to a scratch directory, the real command line is run in them, and every invocation is validated by TLC. ")
NOTES = {
 "C15": (_T, _PAR + "Judged: no case starts before its dependencies ended, each runs exactly once, never more than the processes asked for. " + _TR3),
 "C16": (_T, _PAR + "Judged: holders of a common resource never overlap, and all cases run. " + _TR3),
 "C17": (_T, _PAR + "Judged: results, snapshots, outputs, stored results and status equal those of the serial specification. " + _TR3),
 "C18": (_T, _PAR + "Judged: every kind of breakdown is recorded, counted and does not keep others from running. " + _TR3),
 "C01": (_T, _CMP + "Judged: no difference or failure that the specification shows is hidden. " + _TR),
 "C02": (_T, _CMP + "Judged: unchanged tested text passes, whatever happens to ignored text. " + _TR),
 "C03": (_T, _CMP + "Programs are dense in headers and anchors; sections are permuted, grown and altered. " + _TR),
 "C04": (_T, _CMP + "Programs are dense in sets, lists and tables. " + _TR),
 "C05": (_T, _CMP + "Programs are dense in assertions, explicit failures and exceptions. " + _RUN + "Judged: a failure is never recorded otherwise nor accepted. " + _TR),
 "C06": (_T, _CMP + "Judged: output, line marks and report. " + _TR),
 "C07": (_T, _RUN + "Judged: which snapshots changed. " + _TR2),
 "C08": (_T, _RUN + "Judged: what acceptance installed, and what a kill during it leaves. " + _TR2),
 "C09": (_T, _RUN + "Judged: exit status and printed summary. " + _TR2),
 "C10": (_T, _RUN + "Judged: the result record after every invocation. " + _TR2),
 "C11": (_T, _RUN + "Judged: what is executed with the continue option, and that no result is lost, also after kills. " + _TR2),
 "C12": (_T, _RUN + "Judged: executed and reviewed cases with fail-fast and quit. " + _TR2),
 "C13": (_T, _RUN + "Suites are dense in dependencies (functions, methods, instances). Judged: executed cases and their order. " + _TR2),
 "C14": (_T, _RUN + "Suites are dense in dependencies, with memory caches of all kinds. Judged: arguments seen by the tests, stored results. " + _TR2),
 "C32": (_T, _RUN + "Judged: the index after every run, and listings. " + _TR2),
 **{p: (_T, _SNAP + x + _TR3) for p, x in {
     "C19": "Judged: no call of the real target while replaying, and a missing snapshot fails the test. ",
     "C20": "Judged: which recorded answer each call gets, and that it comes back as received. ",
     "C21": "Judged: which calls are really made with -s and -S, and what acceptance keeps. The histories of SnapMC are replayed too. ",
     "C23": "Requests differ in headers only. Judged: files holding ignored values or request bodies, and the influence of headers on matching. "}.items()},
 "C22": (_T, "Nest.tla is an interpreter of programs of nested decorators (environment and function mocks and snapshots, HTTP snapshots, setup/teardown) around test bodies; NestMC checks on all small programs that it restores what is declared. Random programs run with the real decorators; what the body saw and the environment, functions and HTTP classes afterwards are compared with the specification. "
         "Trusted: harness/drv_nest.py, harness/drv_snap.py."),
 "C28": (_T, "Log.tla says where what a process writes goes; LogMC checks that swapping and restoring streams and handlers, which tests may replace "
         "themselves, shows exactly that, for all interleavings of two processes. Random histories of runs and reviews (serial and parallel, all outcomes, "
         "interruptions, unreadable snapshots) whose tests write to stderr, logging and warnings in every way are executed on the real code; logs, the "
         "process' own stream, streams and handlers outside tests and the printed logs are validated by TLC. Trusted: harness/drv_log.py, TLC."),
 "C29": (_T, "Lru.tla specifies the cache; LruMC checks on all histories of up to 6 (thorough: 7) operations and sizes 0-3 that it is bounded, returns the last value "
         "and evicts what was used least recently. Every one of these histories is replayed on the real cache, and long random ones are validated by TLC. "
         "Trusted: harness/drv_lru.py, TLC."),
 "C24": (_T, _RUN + "Suites have crowded names that are prefixes of each other in letters or segments; judged: what lists, prints, runs, reviews and forgets. " + _TR2),
 **{p: (_T, _PROJ + x + "Trusted: harness/drv_proj.py (writes the projects, reads file trees and printed lines), TLC.") for p, x in {
     "C25": "Projects with junk files, links and removed tests; judged: what --garbage lists and what --clean removes and keeps. ",
     "C26": "Settings in all layers, several invocations per process with different options, --setup dialogues; judged: --config, listings and runs; "
            "and histories of runs whose options come from layers (Run.tla). ",
     "C27": "Judged: listed names, who is executed under each, order and repetition. ",
     "C30": "Projects with process setups under test paths, all outcomes, fail-fast, interruption, quitting, parallel; judged: the order of setup, tests and teardown in every process. ",
     "C31": "Books directories in many spellings (blanks, shell characters, links, .., absolute) by every layer; judged: what changed outside, and all results there; "
            "and histories of runs there (Run.tla) with review tools. "}.items()},
}
