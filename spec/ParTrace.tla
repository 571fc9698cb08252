------------------------------ MODULE ParTrace ------------------------------
(***************************************************************************)
(* Validates the recorded start and end events of test bodies in parallel  *)
(* runs.  Queueing and noticing are not observed: a case may start when    *)
(* all its dependencies taking part have ended and nobody holding one of   *)
(* its resources is running.                                               *)
(***************************************************************************)
EXTENDS Par, Names, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)

(* the cases taking part, as in Run!Begin *)
Rec(rec, c) == LET h == SelectSeq(rec, LAMBDA e : e[1] = c) IN IF h = <<>> THEN "" ELSE h[1][2]
Part(t) ==
  LET known == IF t.inv.r THEN {} ELSE {c \in DOMAIN t.bin : t.bin[c] # ""}
      cases == Cases(t.S, t.inv.sel, known)
  IN {c \in Range(cases) : ~(t.inv.c /\ Rec(t.rec, c) = "OK")}
IsRes(f) == Prefix(f, "=")
(* an apostrophe at the end makes another value of the same resource *)
ResOf(f) == IF SubSeq(f, Len(f), Len(f)) = "'" THEN SubSeq(f, 1, Len(f) - 1) ELSE f
Job(t) ==
  [todo  |-> Part(t),
   deps  |-> [c \in DOMAIN t.S.deps |-> {Resolve(t.S, c, t.S.deps[c][k]) :
                 k \in {k \in 1..Len(t.S.deps[c]) : ~IsRes(t.S.deps[c][k])}} \ {""}],
   res   |-> [c \in DOMAIN t.S.deps |-> {ResOf(t.S.deps[c][k]) : k \in {k \in 1..Len(t.S.deps[c]) : IsRes(t.S.deps[c][k])}}],
   procs |-> t.procs]

VARIABLES tid, k, s, bad, fin
vars == <<tid, k, s, bad, fin>>
Tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ k = 1 /\ s = New(Job(Traces[tid])) /\ bad = {} /\ fin = FALSE

(* queue, take in one step, and end, notice in one step *)
Started(c) == [s EXCEPT !.run = @ \cup {c}, !.starts = Append(@, c)]
Ended(c)   == [s EXCEPT !.run = @ \ {c}, !.done = @ \cup {c}, !.ends = Append(@, c)]
(* a case whose test could not be called, for lack of a result or a setup, has no events *)
Silent == {c \in s.job.todo : ~ \E e \in Range(Tr.events) : e.c = c}
Clauses(c) ==
     (IF c \notin s.job.todo THEN {"executed-unselected"} ELSE {})
  \cup (IF \E x \in 1..Len(s.starts) : s.starts[x] = c THEN {"executed-twice"} ELSE {})
  \cup (IF s.job.deps[c] \cap s.job.todo \subseteq s.done \cup Silent THEN {} ELSE {"started-early"})
  \cup (IF Free(s, c) THEN {} ELSE {"resource-shared"})
  \cup (IF Cardinality(s.run) < s.job.procs THEN {} ELSE {"too-many"})
Event ==
  /\ ~fin /\ k <= Len(Tr.events)
  /\ LET e == Tr.events[k] IN
       /\ s' = IF e.k = "start" THEN Started(e.c) ELSE Ended(e.c)
       /\ bad' = IF e.k = "start" THEN bad \cup Clauses(e.c) ELSE bad
  /\ k' = k + 1 /\ UNCHANGED <<tid, fin>>
(* cases that lack a result, and Tr.lost cases whose process setup broke down, are not called *)
NoResult(c) == \E d \in s.job.deps[c] : Tr.post[d] \in {"", "~broken"}
Asked   == Tr.inv.i \/ Tr.inv.I
Quit    == Asked /\ IsIn("q", Tr.inv.ans)
(* interrupted while tests are running: what was not reported is undetermined, *)
(* but the run ends, fails, and keeps what it had reported                    *)
Stopped == Tr.int \/ Quit \/ (Tr.inv.f /\ \E c \in s.job.todo : Rec(Tr.after, c) \in {"DIFF", "FAIL"})
(* what the run recorded, whether reviewed or not *)
Recorded == {c \in s.job.todo : Rec(Tr.after, c) # ""}
NotOk    == {c \in Recorded : Rec(Tr.after, c) # "OK"}
(* a snapshot changes by acceptance only, and then it is the output *)
Accepting == Asked \/ Tr.inv.a \/ Tr.inv.u
Snapshots ==
  (IF \E c \in DOMAIN Tr.exp : Tr.exp[c] # Tr.expAfter[c] /\ ~(Accepting /\ c \in Recorded \ NotOk)
   THEN {"snapshot-changed"} ELSE {})
  \cup (IF \E c \in Recorded \ NotOk : Tr.text[c] # "~" /\ Tr.expAfter[c] # Tr.text[c] THEN {"ok-without-snapshot"} ELSE {})
(* cases that start, but fail; Tr.broken: their files cannot be written *)
Fails == Range(Tr.fails) \cup Range(Tr.broken)
MustFail == IF Stopped THEN {c \in s.job.todo : c \in Fails /\ Rec(Tr.after, c) # ""}
            ELSE {c \in s.job.todo : c \in Fails} \cup Silent
(* after the answer q nothing is asked for, hence nothing accepted *)
BeforeQuit(ans) == LET q == CHOOSE i \in 1..Len(ans) : ans[i] = "q" /\ \A j \in 1..i - 1 : ans[j] # "q"
                   IN Cardinality({i \in 1..q - 1 : ans[i] = "a"})
NotStopped == /\ Quit /\ ~Tr.inv.a /\ ~Tr.inv.u
              /\ Cardinality({c \in DOMAIN Tr.exp : Tr.exp[c] # Tr.expAfter[c]}) > BeforeQuit(Tr.inv.ans)
Finish ==
  /\ ~fin /\ k > Len(Tr.events)
  /\ fin' = TRUE
  /\ bad' = bad \cup (IF Tr.status # "done" THEN {Tr.status} ELSE
                       (IF ~Stopped /\ Cardinality({c \in Silent \ Range(Tr.broken) : ~NoResult(c)}) > Tr.lost THEN {"not-executed"} ELSE {})
                       \cup (IF ~Stopped /\ \E c \in s.job.todo : Rec(Tr.after, c) = "" THEN {"not-recorded"} ELSE {})
                       \cup (IF \E c \in MustFail : Rec(Tr.after, c) \in {"OK", "DIFF"} THEN {"failure-hidden"} ELSE {})
                       \cup (IF MustFail # {} /\ Tr.rc = "0" THEN {"status-hidden"} ELSE {})
                       \cup (IF \E c \in MustFail : ~IsIn(c, Tr.sum.failed) THEN {"summary-hidden"} ELSE {})
                       \cup (IF Tr.int /\ ~(Range(Tr.reported) \subseteq Recorded) THEN {"not-recorded"} ELSE {})
                       \cup (IF \E e \in Range(Tr.rec) : e[1] \notin s.job.todo /\ Rec(Tr.after, e[1]) # Rec(Tr.rec, e[1]) THEN {"record-lost"} ELSE {})
                       \cup (IF (Tr.rc = "0") # (IF Tr.int THEN FALSE ELSE IF Stopped THEN Tr.sum.failed = <<>> ELSE NotOk = {}) THEN {"status-hidden"} ELSE {})
                       (* a run that stopped leaves the records of former runs for what it did not run *)
                       \cup (IF /\ Len(Tr.sum.failed) = Cardinality(Range(Tr.sum.failed))
                                /\ IF Stopped THEN Range(Tr.sum.failed) \subseteq NotOk /\ Tr.sum.n <= Cardinality(Recorded)
                                   ELSE Range(Tr.sum.failed) = NotOk /\ Tr.sum.n = Cardinality(Recorded)
                             THEN {} ELSE {"summary-hidden"})
                       \cup Snapshots
                       \cup (IF NotStopped THEN {"not-stopped"} ELSE {})
                       \cup (IF Tr.idx = "full" THEN {} ELSE {"index"}))
  /\ PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> bad', todo |-> s.job.todo, starts |-> s.starts, ends |-> s.ends]))
  /\ UNCHANGED <<tid, k, s>>
Next == Event \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
