------------------------------- MODULE NestMC -------------------------------
(* All programs of up to Depth decorators around all bodies of up to two operations *)
EXTENDS Nest
CONSTANTS Depth, MaxBody
E0 == {"A", "B"}
Decs == {[k |-> "menv", m |-> <<<<"A", v>>>>] : v \in {"-", "=x"}}
   \cup {[k |-> "menv", m |-> <<<<"A", "=y">>, <<"B", v>>>>] : v \in {"-", "=x", "bad"}}
   \cup {[k |-> "mmiss", m |-> <<<<"A", "=z">>, <<"B", v>>>>] : v \in {"-", "=w", "bad"}}
   \cup {[k |-> "senv", m |-> <<<<"A", "">>, <<"B", "">>>>]}
   \cup {[k |-> "mfun", m |-> <<<<"f", v>>>>] : v \in {"m1", "m2"}}
   \cup {[k |-> "sfun", m |-> <<<<"f", "">>>>]}
   \cup {[k |-> "setup", m |-> <<<<"g", v>>>>] : v \in {"ok", "bad", "late"}}
Op(o, n, v) == [op |-> o, n |-> n, v |-> v, decs |-> <<>>, body |-> <<>>]
Ops == {Op("set", "A", "=q"), Op("set", "A", "-"), Op("obs", "A", ""), Op("call", "f", ""), Op("raise", "", "")}
Bodies == {<<>>} \cup {<<a>> : a \in Ops} \cup (IF MaxBody > 1 THEN {<<a, b>> : a \in Ops, b \in Ops} ELSE {})
Stores == [env : {Empty, "A" :> "=s", "A" :> "-" @@ "B" :> "=t"}, fun : {Empty, "f" :> "old"}]
VARIABLES env, decs, body, run, done
vars == <<env, decs, body, run, done>>
Init == /\ env \in [E0 -> {"-", "=1"}]
        /\ decs \in UNION {[1..n -> Decs] : n \in 0..Depth}
        /\ body \in Bodies
        /\ run \in [cap : BOOLEAN, fresh : BOOLEAN, store : Stores, real : {"r."}]
        /\ (run.fresh => run.cap)
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<env, decs, body, run>>
Spec == Init /\ [][Next]_vars
End == Exec(run, New(env, {"f"}), decs, body)
Declared == UNION {Names(decs[i]) : i \in 1..Len(decs)}
(* C22 *)
Restored == /\ \A n \in E0 : (n \in Declared \/ \A i \in 1..Len(body) : body[i].op # "set" \/ body[i].n # n) =>
                 End.env[n] = env[n]
            /\ End.fn["f"] = "real"
(* every setup that succeeded is torn down, and in reverse order *)
SetupsOf(p) == SelectSeq(End.log, LAMBDA x : x = p)
Torn == Len(SetupsOf("setup g")) = Len(SetupsOf("teardown g"))
Undone == Restored /\ Torn
=============================================================================
