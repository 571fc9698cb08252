-------------------------------- MODULE Lru --------------------------------
(***************************************************************************)
(* The bounded memory cache: entries [k, v], least recently used first.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Held(c)      == {c[i].k : i \in 1..Len(c)}
Value(c, k)  == (CHOOSE e \in {c[i] : i \in 1..Len(c)} : e.k = k).v
Without(c, k) == SelectSeq(c, LAMBDA e : e.k # k)
Store(c, size, k, v) ==
  LET n == Append(Without(c, k), [k |-> k, v |-> v])
  IN IF Len(n) > size THEN Tail(n) ELSE n
Read(c, k) == IF k \in Held(c) THEN Append(Without(c, k), [k |-> k, v |-> Value(c, k)]) ELSE c
(* what reading shows: missing entries are "none" *)
Got(c, k)  == IF k \in Held(c) THEN Value(c, k) ELSE "none"
Do(c, size, o) == IF o.op = "set" THEN Store(c, size, o.k, o.v) ELSE Read(c, o.k)
=============================================================================
