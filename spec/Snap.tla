-------------------------------- MODULE Snap --------------------------------
(***************************************************************************)
(* Snapshots of calls and requests.  A store keeps, per key, the answers   *)
(* of the 1st, 2nd, .. identical call of a test.  A run of the test plays  *)
(* a script of calls against the store; accepting the run replaces the     *)
(* store by what the run used.                                             *)
(*   Keyed calls ("req", "httpx"): the n-th identical request has its own  *)
(*   answer.  Functions ("fun") have one answer per call.                  *)
(*   Environment ("env"): all names are looked up when the test starts.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* what identifies a call; o are the options of the decorator *)
KeptHeaders(o, c) ==
  IF o.ign = "all" THEN {}
  ELSE {h \in {c.h[k] : k \in 1..Len(c.h)} : ~ \E j \in 1..Len(o.list) : o.list[j] = h[1]}
Key(o, c) ==
  IF o.kind \in {"fun", "env"} THEN <<c.f, c.a>>
  ELSE <<c.m, IF o.url = "path" THEN c.p ELSE c.u, IF o.body = "lower" THEN c.bl ELSE c.b, KeptHeaders(o, c)>>

Ordered(o) == o.kind \in {"req", "httpx"}
Capture(fl) == fl.s \/ fl.S

(* a store: the set of <<key, n, answer>> *)
Has(st, key, n) == \E e \in st : e[1] = key /\ e[2] = n
Ans(st, key, n) == (CHOOSE e \in st : e[1] = key /\ e[2] = n)[3]
Avail(fl, store) == IF fl.S THEN {} ELSE store

(* the position of the next identical call in a run that has used `used` *)
Nth(o, used, key) == IF Ordered(o) THEN 1 + Cardinality({e \in used : e[1] = key}) ELSE 1

(* what the run does with a call: replay the answer, ask the real target, or fail *)
Verdict(o, fl, store, used, key) ==
  LET n == Nth(o, used, key) IN
  IF Has(Avail(fl, store), key, n) THEN "replay" ELSE IF Capture(fl) THEN "real" ELSE "missing"
Replayed(o, fl, store, used, key) == Ans(Avail(fl, store), key, Nth(o, used, key))
(* functions keep the last answer of a call *)
Use(o, used, key, ans) ==
  IF Ordered(o) THEN used \cup {<<key, Nth(o, used, key), ans>>}
  ELSE {e \in used : e[1] # key} \cup {<<key, 1, ans>>}

(* is the result accepted without asking? *)
Accepts(fl, res) == (res = "OK" /\ fl.u) \/ (res = "DIFF" /\ fl.a)
=============================================================================
