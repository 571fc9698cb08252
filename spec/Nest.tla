-------------------------------- MODULE Nest --------------------------------
(***************************************************************************)
(* Nested mocks and snapshots around a test body.  The state is the        *)
(* process: environment, functions, events, whether an exception is being  *)
(* raised, and what has been captured.  Exec gives the state after running *)
(* a body inside a sequence of decorators, outermost first.                *)
(*   environment values: "-" is unset, "=x" is the value x                 *)
(*   functions: "real", "m1", "m2", .. a mock, "snap" a snapshotted one    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* a run: cap - capturing; store - what is replayed; real - prefix of what real functions answer *)
Know(run, kind, n) == ~run.fresh /\ n \in DOMAIN run.store[kind]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

RECURSIVE SetAll(_, _, _, _)
(* mocks are set one after the other; a value that is none, "bad", stops it *)
SetAll(env, m, i, missing) ==
  IF i > Len(m) THEN [env |-> env, ok |-> TRUE]
  ELSE IF missing /\ env[m[i][1]] # "-" THEN SetAll(env, m, i + 1, missing)
  ELSE IF m[i][2] = "bad" THEN [env |-> env, ok |-> FALSE]
  ELSE SetAll([env EXCEPT ![m[i][1]] = m[i][2]], m, i + 1, missing)
Names(d) == {d.m[i][1] : i \in 1..Len(d.m)}

(* entering a decorator; exc says that it failed, leaving no trace *)
Enter(run, st, d) ==
  CASE d.k \in {"menv", "mmiss"} ->
         LET r == SetAll(st.env, d.m, 1, d.k = "mmiss")
         IN IF r.ok THEN [st EXCEPT !.env = r.env] ELSE [st EXCEPT !.exc = TRUE]
    [] d.k = "senv" ->
         IF ~run.cap /\ \E n \in Names(d) : ~Know(run, "env", n) THEN [st EXCEPT !.exc = TRUE]
         ELSE [st EXCEPT !.env = [n \in DOMAIN @ |-> IF n \in Names(d) /\ Know(run, "env", n) THEN run.store.env[n] ELSE @[n]],
                         (* several snapshots of the environment keep their variables together *)
                         !.kept.env = [n \in Names(d) \cup DOMAIN @ |->
                                         IF n \notin Names(d) THEN @[n] ELSE IF Know(run, "env", n) THEN run.store.env[n] ELSE st.env[n]]]
    [] d.k = "mfun" -> [st EXCEPT !.fn = [f \in DOMAIN @ |-> IF \E i \in 1..Len(d.m) : d.m[i][1] = f
                                            THEN d.m[CHOOSE i \in 1..Len(d.m) : d.m[i][1] = f][2] ELSE @[f]]]
    [] d.k = "sfun" -> [st EXCEPT !.fn = [f \in DOMAIN @ |-> IF f \in Names(d) THEN "snap" ELSE @[f]]]
    [] d.k = "setup" -> IF d.m[1][2] = "bad" THEN [st EXCEPT !.log = Append(@, "setup-fails " \o d.m[1][1]), !.exc = TRUE]
                        ELSE [st EXCEPT !.log = Append(@, "setup " \o d.m[1][1])]
    [] OTHER -> st
(* leaving it restores what it declares *)
Exit(before, st, d) ==
  CASE d.k \in {"menv", "mmiss", "senv"} -> [st EXCEPT !.env = [n \in DOMAIN @ |-> IF n \in Names(d) THEN before.env[n] ELSE @[n]]]
    [] d.k \in {"mfun", "sfun"} -> [st EXCEPT !.fn = [f \in DOMAIN @ |-> IF f \in Names(d) THEN before.fn[f] ELSE @[f]]]
    [] d.k = "setup" -> [st EXCEPT !.log = Append(@, "teardown " \o d.m[1][1]),
                                   !.exc = @ \/ d.m[1][2] = "late"]
    [] OTHER -> st

Answer(run, f) == run.real \o f
(* calling a function *)
Call(run, st, f) ==
  IF st.fn[f] = "real" THEN [st EXCEPT !.log = Append(@, f \o "=" \o Answer(run, f))]
  ELSE IF st.fn[f] # "snap" THEN [st EXCEPT !.log = Append(@, f \o "=" \o st.fn[f])]
  ELSE IF Know(run, "fun", f) THEN [st EXCEPT !.log = Append(@, f \o "=" \o run.store.fun[f]), !.kept.fun = Put(@, f, run.store.fun[f])]
  ELSE IF run.cap THEN [st EXCEPT !.log = Append(@, f \o "=" \o Answer(run, f)), !.kept.fun = Put(@, f, Answer(run, f))]
  ELSE [st EXCEPT !.exc = TRUE]

RECURSIVE Exec(_, _, _, _), Body(_, _, _, _)
Exec(run, st, decs, body) ==
  IF decs = <<>> THEN Body(run, st, body, 1)
  ELSE LET in == Enter(run, st, decs[1])
       IN IF in.exc THEN in ELSE Exit(st, Exec(run, in, Tail(decs), body), decs[1])
Body(run, st, body, i) ==
  IF i > Len(body) \/ st.exc THEN st
  ELSE LET o == body[i]
           s == CASE o.op = "set" -> [st EXCEPT !.env[o.n] = o.v]
                  [] o.op = "obs" -> [st EXCEPT !.log = Append(@, "env " \o o.n \o st.env[o.n])]
                  [] o.op = "call" -> Call(run, st, o.n)
                  [] o.op = "raise" -> [st EXCEPT !.exc = TRUE]
                  [] o.op \in {"http", "odd", "wipe"} -> st
                  [] o.op = "nest" -> LET x == Exec(run, st, o.decs, o.body) IN IF o.v = "catch" THEN [x EXCEPT !.exc = FALSE] ELSE x
       IN Body(run, s, body, i + 1)

Empty == [x \in {} |-> ""]
New(env, fns) == [env |-> env, fn |-> [f \in fns |-> "real"], log |-> <<>>, exc |-> FALSE, kept |-> [env |-> Empty, fun |-> Empty]]
=============================================================================
