------------------------------- MODULE LogMC --------------------------------
(***************************************************************************)
(* The mechanism: a process swaps its stream and its handlers when a test  *)
(* is opened and puts back what it saved when the test is closed; tests    *)
(* may replace either themselves, and may end in any way at any point.     *)
(* It shows to the outside what Log says.                                  *)
(***************************************************************************)
EXTENDS Log
CONSTANTS Procs, Cases, MaxEvents
VARIABLES spec,                     \* the state of Log
          err, hand, saved,         \* per process: stream, handlers, what was saved
          file, main, n
vars == <<spec, err, hand, saved, file, main, n>>
Init == /\ spec = [Start(Procs) EXCEPT !.log = [c \in Cases |-> <<>>]]
        /\ err = [p \in Procs |-> "own"] /\ hand = [p \in Procs |-> "own"]
        /\ saved = [p \in Procs |-> <<>>]
        /\ file = [c \in Cases |-> <<>>] /\ main = [p \in Procs |-> <<>>] /\ n = 0
Tick == n < MaxEvents /\ n' = n + 1
(* no test runs in two processes at once *)
Open(p, c) == /\ Tick /\ spec.at[p] = Nowhere /\ \A q \in Procs : spec.at[q] # c
              /\ saved' = [saved EXCEPT ![p] = <<err[p], hand[p]>>]
              /\ err' = [err EXCEPT ![p] = c] /\ hand' = [hand EXCEPT ![p] = c]
              /\ file' = [file EXCEPT ![c] = <<>>]
              /\ spec' = Begin(spec, p, c)
              /\ UNCHANGED main
Put(p, where, x) == IF where = "own" THEN main' = [main EXCEPT ![p] = Append(@, x)] /\ UNCHANGED file
                    ELSE IF where = "other" THEN UNCHANGED <<main, file>>
                    ELSE file' = [file EXCEPT ![where] = Append(@, x)] /\ UNCHANGED main
Say(p, via) == /\ Tick
               /\ LET where == IF via = "err" THEN err[p] ELSE hand[p] IN
                  /\ Put(p, where, n)
                  /\ spec' = IF where = "other" THEN spec ELSE Write(spec, p, n)
               /\ UNCHANGED <<err, hand, saved>>
Mess(p, what) == /\ Tick /\ spec.at[p] # Nowhere
                 /\ IF what = "err" THEN err' = [err EXCEPT ![p] = "other"] /\ UNCHANGED hand
                    ELSE hand' = [hand EXCEPT ![p] = "other"] /\ UNCHANGED err
                 /\ UNCHANGED <<spec, saved, file, main>>
Close(p) == /\ Tick /\ spec.at[p] # Nowhere
            /\ err' = [err EXCEPT ![p] = saved[p][1]] /\ hand' = [hand EXCEPT ![p] = saved[p][2]]
            /\ spec' = End(spec, p)
            /\ UNCHANGED <<saved, file, main>>
Next == \E p \in Procs : (\E c \in Cases : Open(p, c)) \/ (\E v \in {"err", "log"} : Say(p, v) \/ Mess(p, v)) \/ Close(p)
Spec == Init /\ [][Next]_vars
Restored == \A p \in Procs : spec.at[p] = Nowhere => err[p] = "own" /\ hand[p] = "own"
Logs     == \A c \in Cases : file[c] = spec.log[c]
Own      == \A p \in Procs : main[p] = spec.own[p]
=============================================================================
