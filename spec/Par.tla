-------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* The parallel scheduler.  A job j is a record                            *)
(*   todo  set of cases taking part    deps  case -> cases it depends on   *)
(*   res   case -> set of identifiers of exclusive resources               *)
(*   procs number of processes                                             *)
(* The master queues cases, whose dependencies are done and whose          *)
(* resources are free; processes take cases from the queue; the master     *)
(* notices finished cases, and then their resources are free again.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

New(j) == [job |-> j, queue |-> <<>>, run |-> {}, ended |-> {}, done |-> {}, starts |-> <<>>, ends |-> <<>>,
           abort |-> FALSE]

InQueue(s)  == {s.queue[k] : k \in 1..Len(s.queue)}
Holding(s)  == InQueue(s) \cup s.run \cup s.ended
Waiting(s)  == s.job.todo \ (Holding(s) \cup s.done)
Reserved(s) == UNION {s.job.res[c] : c \in Holding(s)}
Ready(s, c) == s.job.deps[c] \cap s.job.todo \subseteq s.done
Free(s, c)  == s.job.res[c] \cap Reserved(s) = {}

CanQueue(s, c) == ~s.abort /\ c \in Waiting(s) /\ Ready(s, c) /\ Free(s, c)
Queue(s, c)    == [s EXCEPT !.queue = Append(@, c)]
CanTake(s)     == s.queue # <<>> /\ Cardinality(s.run) < s.job.procs
Take(s)        == [s EXCEPT !.queue = Tail(@), !.run = @ \cup {Head(s.queue)}, !.starts = Append(@, Head(s.queue))]
End(s, c)      == [s EXCEPT !.run = @ \ {c}, !.ended = @ \cup {c}, !.ends = Append(@, c)]
Notice(s, c)   == [s EXCEPT !.ended = @ \ {c}, !.done = @ \cup {c}]
Abort(s)       == [s EXCEPT !.abort = TRUE]
=============================================================================
