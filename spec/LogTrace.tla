------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Validates recorded invocations: [id, steps], a step is                  *)
(* [kind, main, show, partial, cut, events, logs, own, printed, after], where   *)
(* events are begins, ends and writes of tests and writes outside of them  *)
(* in the order they happened; own, what reached the stream of the main    *)
(* process; points, the state of streams and handlers seen outside tests.  *)
(***************************************************************************)
EXTENDS Log, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
Range(q) == {q[k] : k \in 1..Len(q)}

VARIABLES tid, j, s, bad, fin
vars == <<tid, j, s, bad, fin>>
Tr == Traces[tid]
St == Tr.steps[j]
Pids == {St.events[k].pid : k \in 1..Len(St.events)} \cup {St.main}

Init == tid \in 1..Len(Traces) /\ j = 1 /\ s = Start({}) /\ bad = <<>> /\ fin = FALSE

Ran == {St.events[k].x : k \in {h \in 1..Len(St.events) : St.events[h].e = "in"}}
(* an interrupted test is not reported *)
Reported == Ran \ {St.events[k].x : k \in {h \in 1..Len(St.events) : St.events[h].e = "out" /\ St.events[h].how = "kbd"}}
PrintedOf(n, c) == SelectSeq(St.printed, LAMBDA x : x \in Range(LogOf(n, c)))
RECURSIVE Total(_, _)
Total(n, cs) == IF cs = {} THEN 0 ELSE LET c == CHOOSE c \in cs : TRUE IN Len(LogOf(n, c)) + Total(n, cs \ {c})
Ended == {St.events[k].x : k \in {h \in 1..Len(St.events) : St.events[h].e = "out"}}
(* where a run is cut short, a test may have begun without its body having begun, or have been stopped within it:  *)
(* its log is then new, and may lack what was still buffered                                                       *)
Adopt(n) == IF ~St.cut \/ St.status # "done" THEN n
            ELSE [n EXCEPT !.log = [c \in DOMAIN n.log |->
                     IF c \in DOMAIN St.logs /\ ((c \notin Ran /\ St.logs[c] = <<>>) \/ c \in Ran \ Ended)
                     THEN St.logs[c] ELSE n.log[c]]]
Clauses(n) ==
  IF St.status # "done" THEN {St.status}
  ELSE (IF \A c \in DOMAIN n.log : c \in DOMAIN St.logs /\ St.logs[c] = n.log[c] THEN {} ELSE {"log"})
  \cup (IF \A c \in DOMAIN St.logs \ DOMAIN n.log : St.logs[c] = <<>> THEN {} ELSE {"foreign-log"})
  \cup (IF St.own = n.own[St.main] THEN {} ELSE {"own-stream"})
  \cup (IF \A k \in 1..Len(St.points) : St.points[k][1] = "own" THEN {} ELSE {"stderr-left"})
  \cup (IF \A k \in 1..Len(St.points) : St.points[k][2] = "own" THEN {} ELSE {"handlers-left"})
  \cup (IF ~St.show THEN (IF St.printed = <<>> THEN {} ELSE {"printed-unasked"})
        ELSE LET may == IF St.kind = "run" THEN Reported ELSE DOMAIN n.log
                 must == IF St.kind = "run" /\ ~St.partial THEN Reported ELSE {}
                 shown == {c \in may : PrintedOf(n, c) # <<>>}
             IN (IF /\ \A c \in shown : PrintedOf(n, c) = LogOf(n, c)
                    /\ \A c \in must : LogOf(n, c) # <<>> => c \in shown
                    /\ Len(St.printed) = Total(n, shown)
                 THEN {} ELSE {"printed"}))
Step ==
  /\ ~fin
  /\ LET here == [s EXCEPT !.at = [p \in Pids |-> Nowhere], !.own = [p \in Pids |-> <<>>]]
         n == Adopt(ApplyAll(here, St.events))
         b == Clauses(n)
         more == b = {} /\ j < Len(Tr.steps)
     IN /\ s' = n
        /\ bad' = IF b = {} THEN bad ELSE Append(bad, [step |-> j, bad |-> b])
        /\ fin' = ~more
        /\ j' = IF more THEN j + 1 ELSE j
        /\ (~more => PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> bad', steps |-> j,
                                             spec |-> [log |-> n.log, own |-> n.own[St.main]]])))
  /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
=============================================================================
