------------------------------- MODULE LruMC -------------------------------
(* All histories of Depth operations on Keys for all sizes; Emit prints them with what each operation shows *)
EXTENDS Lru, Json
CONSTANTS Depth, Keys, Sizes, Emit
VARIABLES size, c, hist, shown
vars == <<size, c, hist, shown>>
Names == <<"a", "b", "c", "d", "e">>
Init == size \in Sizes /\ c = <<>> /\ hist = <<>> /\ shown = <<>>
(* a history uses the keys in the order of their names: others are the same but for the names *)
Known(h) == Cardinality({h[i].k : i \in 1..Len(h)})
Op == LET n == Known(hist) IN
  \E i \in 1..(IF n < Keys THEN n + 1 ELSE n) : \E o \in {"set", "get"} :
    LET x == [op |-> o, k |-> Names[i], v |-> IF o = "set" THEN ToString(Len(hist)) ELSE ""] IN
    /\ hist' = Append(hist, x)
    /\ c' = Do(c, size, x)
    /\ shown' = Append(shown, <<IF o = "set" THEN "" ELSE Got(c, x.k), Len(c')>>)
Next == /\ Len(hist) < Depth
        /\ Op
        /\ UNCHANGED size
        /\ (~Emit \/ PrintT("@V " \o ToJson([size |-> size, ops |-> hist', shown |-> shown',
                                              end |-> c'])))
Spec == Init /\ [][Next]_vars

(* C29, from the history alone *)
LastSet(h, k) == LET S == {i \in 1..Len(h) : h[i].op = "set" /\ h[i].k = k} IN
                 IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Bounded   == Len(c) <= size
LastValue == \A k \in Held(c) : LastSet(hist, k) # 0 /\ Value(c, k) = ToString(LastSet(hist, k) - 1)
Unique    == \A i, j \in 1..Len(c) : c[i].k = c[j].k => i = j
(* a use is a store, or a read that found the entry *)
Used(h, sh, k) == LET S == {i \in 1..Len(h) : h[i].k = k /\ (h[i].op = "set" \/ sh[i][1] # "none")} IN
                  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
(* what is held are the keys used last: as many as fit *)
Recent == LET U == {k \in {hist[i].k : i \in 1..Len(hist)} : Used(hist, shown, k) # 0}
          IN Held(c) = {k \in U : Cardinality({g \in U : Used(hist, shown, g) > Used(hist, shown, k)}) < size}
=============================================================================
