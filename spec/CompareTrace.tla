---------------------------- MODULE CompareTrace ----------------------------
(***************************************************************************)
(* Validates recorded test runs of the real code against Compare: one      *)
(* initial state per recorded run, one step per public call, and a total   *)
(* verdict naming the clauses that fail.                                   *)
(***************************************************************************)
EXTENDS Compare, Json, IOUtils

Data   == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
(* characters outside ASCII used by the runs, classified by the harness *)
ToSet(q) == {q[k] : k \in 1..Len(q)}
DataAlnum == ToSet(Data.alnum)
DataNumeric == ToSet(Data.numeric)

VARIABLES tid, i, s, done
vars == <<tid, i, s, done>>
Tr == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ s = Start(Traces[tid].ex, Traces[tid].exp)
        /\ done = FALSE

Wild == Tr.ops # <<>> /\ Tr.ops[Len(Tr.ops)].op = "raise"

Clauses(f) ==
  LET r == Tr.real
      n == Len(f.out) - (IF Wild THEN 1 ELSE 0)
      res == Result(f)
  IN IF r.status # "done" THEN {r.status}
     ELSE (IF r.res = res THEN {}
           ELSE IF res = "FAIL" THEN {"failure-hidden"}
           ELSE IF r.res = "FAIL" THEN {"false-failure"}
           ELSE IF r.res = "OK" THEN {"difference-hidden"}
           ELSE {"false-difference"})
     \cup (IF Len(r.out) >= n /\ SubSeq(r.out, 1, n) = SubSeq(f.out, 1, n)
              /\ (Wild \/ Len(r.out) = n) THEN {} ELSE {"output"})
     \cup (IF Len(r.mark) >= n /\ SubSeq(r.mark, 1, n) = SubSeq(f.mark, 1, n)
              /\ (IF Wild THEN \E k \in (n + 1)..Len(r.mark) : r.mark[k] = "!" ELSE Len(r.mark) = n)
           THEN {} ELSE {"marks"})
     \cup (IF Len(r.side) >= n /\ \A k \in 1..n : f.side[k] \in {"~", r.side[k]} THEN {} ELSE {"beside"})
     \cup (IF r.rep = r.out THEN {} ELSE {"report"})

Step == /\ ~done /\ i <= Len(Tr.ops)
        /\ s' = Apply(s, Tr.ops[i])
        /\ i' = i + 1
        /\ UNCHANGED <<tid, done>>
Finish == /\ ~done /\ i > Len(Tr.ops)
          /\ s' = End(s)
          /\ done' = TRUE
          /\ UNCHANGED <<tid, i>>
          /\ PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> Clauses(s'), res |-> Result(s'), out |-> s'.out, mark |-> s'.mark, side |-> s'.side]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
