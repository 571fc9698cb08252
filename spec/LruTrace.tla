------------------------------ MODULE LruTrace ------------------------------
(* Validates recorded histories of a cache: [id, kind, size, ops, held]; an operation is [op, k, v, got, len] *)
EXTENDS Lru, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, j, c, bad, fin
vars == <<tid, j, c, bad, fin>>
Tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ j = 1 /\ c = <<>> /\ bad = {} /\ fin = FALSE
Size == IF Tr.kind = "none" THEN 0 ELSE Tr.size
O == Tr.ops[j]
Pairs == {Tr.held[i] : i \in 1..Len(Tr.held)}
Step ==
  /\ ~fin
  /\ IF j > Len(Tr.ops)
     THEN /\ fin' = TRUE /\ UNCHANGED <<tid, j, c>>
          /\ bad' = (IF {p[1] : p \in Pairs} = Held(c) THEN {} ELSE {"evicted"})
                    \cup (IF \A p \in Pairs : p[1] \in Held(c) => p[2] = Value(c, p[1]) THEN {} ELSE {"value"})
          /\ PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> bad', at |-> j, held |-> c]))
     ELSE LET n == Do(c, Size, O)
              b == (IF O.len = Len(n) THEN {} ELSE IF O.len > Size THEN {"unbounded"} ELSE {"length"})
                   \cup (IF O.op = "set" \/ O.got = Got(c, O.k) THEN {} ELSE IF Got(c, O.k) = "none" THEN {"evicted"} ELSE {"value"})
          IN /\ c' = n /\ bad' = b /\ j' = (IF b = {} THEN j + 1 ELSE j) /\ fin' = (b # {}) /\ UNCHANGED tid
             /\ (b # {} => PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> b, at |-> j, held |-> n])))
Spec == Init /\ [][Step]_vars
=============================================================================
