------------------------------- MODULE ParMC -------------------------------
(* all schedules of all small jobs; the histories of started and ended cases are printed *)
EXTENDS Par, Json, Sequences
CONSTANTS Cases, Res, Procs, WithRes, Emit, Aborts

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
Graphs == {d \in [Cases -> SUBSET Cases] : \A c \in Cases : \A e \in d[c] : e < c}
Jobs == {[todo |-> Cases, deps |-> d, res |-> r, procs |-> p] :
           d \in Graphs, r \in [Cases -> IF WithRes THEN SUBSET Res ELSE {{}}], p \in Procs}

VARIABLE s
Init == s \in {New(j) : j \in Jobs}
QueueOne == \E c \in Cases : CanQueue(s, c) /\ s' = Queue(s, c)
TakeOne  == CanTake(s) /\ s' = Take(s)
EndOne   == \E c \in s.run : s' = End(s, c)
SeeOne   == \E c \in s.ended : s' = Notice(s, c)
Stop     == Aborts /\ ~s.abort /\ s.done # {} /\ s.done # Cases /\ s' = Abort(s)
Over     == s.done = Cases /\ UNCHANGED s
            /\ (Emit => PrintT("@V " \o ToJson([deps |-> [c \in Cases |-> SetSeq(s.job.deps[c])],
                                                 res |-> [c \in Cases |-> SetSeq(s.job.res[c])],
                                                 procs |-> s.job.procs, starts |-> s.starts, ends |-> s.ends])))
Next == QueueOne \/ TakeOne \/ EndOne \/ SeeOne \/ Stop \/ Over
Spec == Init /\ [][Next]_s
Fair == Spec /\ WF_s(QueueOne) /\ WF_s(TakeOne) /\ WF_s(EndOne) /\ WF_s(SeeOne)

Index(q, c) == CHOOSE k \in 1..Len(q) : q[k] = c
In(q, c) == \E k \in 1..Len(q) : q[k] = c
(* C15 *)
DepsFirst == \A c \in s.run : s.job.deps[c] \subseteq s.done
Once == \A x, y \in 1..Len(s.starts) : x # y => s.starts[x] # s.starts[y]
AllRun == [](\A c \in Cases : ~s.abort => TRUE) /\ <>(s.abort \/ s.done = Cases)
(* C16 *)
Exclusive == \A c, d \in s.run : c # d => s.job.res[c] \cap s.job.res[d] = {}
(* C18: aborted or not, what was taken ends, and then nothing is reserved for ever *)
Ends == <>[](s.run = {} /\ s.ended = {})
Bounded == Cardinality(s.run) <= s.job.procs
=============================================================================
