------------------------------ MODULE NestTrace ------------------------------
(* Validates recorded runs of tests with nested decorators. *)
EXTENDS Nest, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, step, store, bad, log
vars == <<tid, step, store, bad, log>>
Tr == Traces[tid]
Range(x) == {x[i] : i \in 1..Len(x)}
Init == tid \in 1..Len(Traces) /\ step = 1 /\ store = [env |-> Empty, fun |-> Empty] /\ bad = {} /\ log = <<>>
Step ==
  /\ step <= Len(Tr.steps)
  /\ LET r == Tr.steps[step]
         run == [cap |-> r.s \/ r.S, fresh |-> r.S, store |-> store, real |-> r.real]
         x == Exec(run, New(r.env, Range(Tr.fns)), Tr.decs, Tr.body)
         acc == (r.res = "OK" /\ r.u) \/ (r.res = "DIFF" /\ r.a)
         b == (IF Tr.loose \/ r.log = x.log THEN {} ELSE {"inside"})
              \cup (IF \A n \in DOMAIN r.env : r.after[n] = x.env[n] THEN {} ELSE {"env-trace"})
              \cup (IF r.others THEN {} ELSE {"env-trace"})
              \cup (IF r.fntrace = <<>> THEN {} ELSE {"function-trace"})
              \cup (IF r.libtrace = <<>> THEN {} ELSE {"library-trace"})
              \cup (IF Tr.loose \/ (r.res = "FAIL") = x.exc THEN {} ELSE {"result"})
     IN /\ bad' = bad \cup b
        /\ log' = IF b # {} THEN Append(log, [step |-> step, bad |-> b, want |-> [env |-> x.env, log |-> x.log, exc |-> x.exc]]) ELSE log
        /\ store' = IF acc THEN [env |-> x.kept.env, fun |-> x.kept.fun] ELSE store
  /\ step' = step + 1 /\ UNCHANGED tid
Finish == /\ step = Len(Tr.steps) + 1
          /\ PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> bad, log |-> log]))
          /\ step' = step + 1 /\ UNCHANGED <<tid, store, bad, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
