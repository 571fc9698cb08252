------------------------------ MODULE BracketMC ------------------------------
(***************************************************************************)
(* Process setup and teardown around the tests: the main process runs the  *)
(* tests itself or hands them to workers; a test may fail, raise, or       *)
(* interrupt the run; the run may be aborted at any time.                  *)
(***************************************************************************)
EXTENDS Project
CONSTANTS Workers, N, Parallel

VARIABLES evs, todo, up, busy, ended, stop
vars == <<evs, todo, up, busy, ended, stop>>
Procs == {"main"} \cup Workers
E(p, e) == evs' = Append(evs, [pid |-> p, e |-> e])

Init == evs = <<>> /\ todo = N /\ up = {} /\ busy = {} /\ ended = {} /\ stop = FALSE
(* a process sets up when it starts its part: the main process once, a worker around every case it gets *)
Setup(p) == /\ p \notin up /\ p \notin ended
            /\ IF p = "main" THEN TRUE ELSE Parallel /\ "main" \in up /\ todo > 0 /\ ~stop
            /\ (p # "main" => todo' = todo - 1) /\ (p = "main" => todo' = todo)
            /\ up' = up \cup {p} /\ E(p, "setup")
            /\ busy' = IF p = "main" THEN busy ELSE busy \cup {p}
            /\ UNCHANGED <<ended, stop>>
Test(p) == /\ p \in up
           /\ IF p = "main" THEN ~Parallel /\ todo > 0 /\ ~stop ELSE p \in busy
           /\ todo' = IF p = "main" THEN todo - 1 ELSE todo
           /\ busy' = busy \ {p} /\ E(p, "test") /\ UNCHANGED <<up, ended>>
           (* whatever the test does, the bracket stays; an interruption, a failure with fail-fast or quitting stops the run *)
           /\ stop' \in {stop, TRUE}
Teardown(p) == /\ p \in up /\ p \notin busy
               /\ (p = "main" => (stop \/ todo = 0) /\ up = {"main"})
               /\ up' = up \ {p} /\ E(p, "teardown") /\ ended' = (IF p = "main" THEN Procs ELSE ended)
               /\ UNCHANGED <<todo, busy, stop>>
Abort == ~stop /\ "main" \in up /\ stop' = TRUE /\ UNCHANGED <<evs, todo, up, busy, ended>>
Next == (\E p \in Procs : Setup(p) \/ Test(p) \/ Teardown(p)) \/ Abort
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what ProjectTrace demands of recorded events *)
TestsBracketed == \A k \in 1..Len(evs) : evs[k].e = "test" => OpenAt(evs, evs[k].pid, k)
NotNested == \A k \in 1..Len(evs) : /\ evs[k].e = "setup" => ~OpenAt(evs, evs[k].pid, k)
                                    /\ evs[k].e = "teardown" => OpenAt(evs, evs[k].pid, k)
Closed == ended = Procs => \A p \in Procs : ~OpenAt(Append(evs, [pid |-> p, e |-> "end"]), p, Len(evs) + 1)
Ends == <>(ended = Procs)
==============================================================================
