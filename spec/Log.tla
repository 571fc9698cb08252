-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* Where diagnostic output goes.  A process has its own stderr and log     *)
(* handlers; while it runs a test both lead to the log of that test.       *)
(*   at[p]   the test that process p is running, or Nowhere                *)
(*   log[c]  what the log file of test c holds                             *)
(*   own[p]  what reached the process' own stderr and handlers             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Nowhere == ""
Start(P)      == [at |-> [p \in P |-> Nowhere], log |-> [c \in {} |-> <<>>], own |-> [p \in P |-> <<>>]]
LogOf(s, c)   == IF c \in DOMAIN s.log THEN s.log[c] ELSE <<>>
PutLog(s, c, x) == [s EXCEPT !.log = (c :> x) @@ @]

(* a test begins with an empty log *)
Begin(s, p, c) == PutLog([s EXCEPT !.at[p] = c], c, <<>>)
Write(s, p, x) == IF s.at[p] = Nowhere THEN [s EXCEPT !.own[p] = Append(@, x)]
                  ELSE PutLog(s, s.at[p], Append(LogOf(s, s.at[p]), x))
(* however it ends, the process is as before *)
End(s, p)      == [s EXCEPT !.at[p] = Nowhere]

Apply(s, e) == CASE e.e = "in"  -> Begin(s, e.pid, e.x)
                 [] e.e = "w"   -> Write(s, e.pid, e.x)
                 [] e.e = "out" -> End(s, e.pid)
                 [] OTHER       -> s
RECURSIVE ApplyAll(_, _)
ApplyAll(s, evs) == IF evs = <<>> THEN s ELSE ApplyAll(Apply(s, Head(evs)), Tail(evs))
=============================================================================
