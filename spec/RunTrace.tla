------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Validates recorded histories of invocations against Run.  Each step of  *)
(* a history records the world before and after one invocation, what it    *)
(* executed, its exit status and its summary.  A killed invocation must    *)
(* leave the world of some step of the machine.                            *)
(***************************************************************************)
EXTENDS Run, Config, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, j, m, path, bad, fin
vars == <<tid, j, m, path, bad, fin>>
Tr == Traces[tid]
St == Tr.steps[j]

(* the options of an invocation: its command line on top of its own defaults on top of the layers *)
Effective(inv, cfg) ==
  [inv EXCEPT !.sel = IF @ = <<>> THEN Split(Lookup(cfg, "default_tests", "test,book"), "") ELSE @,
              !.c = @ \/ On(cfg, "continue"), !.f = @ \/ On(cfg, "fail_fast"), !.a = @ \/ On(cfg, "accept"),
              !.u = @ \/ On(cfg, "update"), !.i = @ \/ On(cfg, "interactive"),
              !.I = @ \/ On(cfg, "always_interactive"), !.r = @ \/ On(cfg, "refresh_sources"),
              !.p = @ \/ On(cfg, "parallel"), !.tools = "md_viewer" \in DOMAIN cfg]
Begun(t, n) ==
  LET s == Traces[t].steps[n]
  IN Start(Traces[t].S[s.s], s.pre, Effective(s.inv, Pairs(s.inv.extra, Layered(s.Y))), s.sc)

Init == /\ tid \in 1..Len(Traces) /\ j = 1
        /\ m = Begun(tid, 1) /\ path = <<[w |-> Traces[tid].steps[1].pre, log |-> <<>>]>> /\ bad = <<>> /\ fin = FALSE

Fits(v, o) == v = "~" \/ v = o
FitsAll(f, g) == \A c \in DOMAIN f : Fits(f[c], g[c])
ExecutedIn(log) == {log[k].c : k \in 1..Len(log)}
ArgsOf(log, c) == (SelectSeq(log, LAMBDA e : e.c = c))[1].args

SnapshotClauses(o) ==
  UNION {LET touched == o.w.exp[c] # St.pre.exp[c] \/ o.w.expAtt[c] # St.pre.expAtt[c] IN
         (IF touched /\ ~IsIn(c, m.acc)
          THEN {"snapshot-changed"} \cup (IF IsIn(<<c, "FAIL">>, m.ran) THEN {"failure-accepted"} ELSE {})
          ELSE {})
         \cup (IF IsIn(c, m.acc) /\ ~(Fits(m.w.exp[c], o.w.exp[c]) /\ Fits(m.w.expAtt[c], o.w.expAtt[c]))
               THEN {"not-installed"} ELSE {})
         : c \in DOMAIN o.w.exp}
  \cup (IF o.extra # <<>> THEN {"snapshot-changed"} ELSE {})

Entries(rec, c) == SelectSeq(rec, LAMBDA e : e[1] = c)
RecordClauses(o) ==
  LET rec == o.w.rec IN
  (IF \E c \in DOMAIN o.w.exp : Len(Entries(rec, c)) > 1 THEN {"record-duplicate"} ELSE {})
  \cup UNION {LET want == RecOf(m.w.rec, c)
                  is   == RecOf(rec, c)
                  part == IF m.inv.cmd = "run" THEN IsIn(c, m.todo) ELSE \E k \in 1..Len(m.ran) : m.ran[k][1] = c
              IN IF want = is THEN {}
                 ELSE IF m.inv.cmd = "forget" THEN {"forget"}
                 ELSE IF ~part THEN {"record-changed"} \cup (IF want = "OK" THEN {"result-lost"} ELSE {})
                 ELSE IF is = "" THEN {"record-missing", "result-lost"} \cup (IF want = "FAIL" THEN {"failure-hidden"} ELSE {})
                 ELSE IF want = "" THEN {"record-stale"}
                 ELSE {"record-result"} \cup (IF want = "FAIL" THEN {"failure-hidden"} ELSE {})
              : c \in DOMAIN o.w.exp}

ExecClauses(o) ==
  LET os == ExecutedIn(o.log)
      es == ExecutedIn(m.log)
      tried(c) == RecOf(o.w.rec, c) # ""
  IN (IF Cardinality(os) # Len(o.log) THEN {"executed-twice"} ELSE {})
     \cup (IF \E x, y \in 1..Len(o.log) : x < y /\
                 \E k \in 1..Len(m.S.deps[o.log[x].c]) : Resolve(m.S, o.log[x].c, m.S.deps[o.log[x].c][k]) = o.log[y].c
           THEN {"dependency-order"} ELSE {})
     \cup UNION {IF ~IsIn(c, m.cases) THEN {"executed-unselected"}
                 ELSE IF ~IsIn(c, m.todo) THEN {"executed-passed"}
                 ELSE IF RecOf(m.ran, c) # "" THEN {"arguments"}
                 ELSE {"not-stopped"} : c \in os \ es}
     \cup UNION {IF tried(c) THEN {"arguments"}
                 ELSE {"not-executed"} \cup (IF m.inv.c THEN {"wrongly-skipped"} ELSE {}) : c \in es \ os}
     \cup (IF \E c \in os \cap es : ArgsOf(o.log, c) # ArgsOf(m.log, c) THEN {"arguments"} ELSE {})

ReviewClauses(o) ==
  (* what the review presented, in the order of the record *)
  IF m.inv.cmd # "review" \/ m.rc \in {"exc", "?"} THEN {}
  ELSE LET want == [k \in 1..Len(m.ran) |-> m.ran[k][1]] IN
       IF o.shown = want THEN {}
       ELSE IF Len(o.shown) > Len(want) /\ SubSeq(o.shown, 1, Len(want)) = want
            THEN (IF m.abort THEN {"not-stopped"} ELSE {"reviewed-unselected"})
       ELSE {"review-order"}

Clauses(o) ==
  IF o.status # "done" THEN {o.status}
  ELSE SnapshotClauses(o) \cup RecordClauses(o) \cup ExecClauses(o) \cup ReviewClauses(o)
       \cup (IF FitsAll(m.w.bin, o.w.bin) THEN {} ELSE {"stored-result"})
       \cup (IF m.rc = "?" \/ (m.rc = "0") = (o.rc = "0") THEN {} ELSE {"exit-status"})
       \cup (IF m.inv.cmd \in {"run", "review"} /\ m.rc \notin {"exc", "?"} /\
                ~(o.sum.n = m.sum.n /\ Range(o.sum.failed) = Range(m.sum.failed)
                  /\ Len(o.sum.failed) = Len(m.sum.failed)) THEN {"summary"} ELSE {})
       \cup (IF Fits(m.w.idx, o.w.idx) THEN {} ELSE {"index"})
       \cup (IF m.inv.cmd = "list" /\ o.list # m.list THEN {"list"} ELSE {})
       \cup (IF o.tools # m.tools THEN {"tools"} ELSE {})
       \cup (IF o.outside # <<>> THEN {"outside"} ELSE {})
       \cup (IF FitsAll(m.w.out, o.w.out) /\ FitsAll(m.w.outAtt, o.w.outAtt) THEN {} ELSE {"outputs"})

(* killed: the world must be one of the path, at a step where the same tests had been started *)
FitsWorld(w, o, fields) ==
  /\ ("exp" \in fields => FitsAll(w.exp, o.exp) /\ FitsAll(w.expAtt, o.expAtt))
  /\ ("bin" \in fields => FitsAll(w.bin, o.bin))
  /\ ("rec" \in fields => w.rec = o.rec)
(* steps of the machine at which the same tests had been started *)
Now(k) == path[k].log = St.obs.log
Some(fields) == \E k \in 1..Len(path) : Now(k) /\ FitsWorld(path[k].w, St.obs.w, fields)
KilledClauses ==
  LET o == St.obs IN
  IF o.status # "killed" THEN {o.status}
  ELSE (IF \A c \in DOMAIN o.w.exp : \E k \in 1..Len(path) : path[k].w.exp[c] = o.w.exp[c] THEN {} ELSE {"torn-snapshot"})
       \cup (IF \E k \in 1..Len(path) : Now(k) THEN {} ELSE {"killed-log"})
       \cup (IF Some({"rec"}) THEN {} ELSE {"killed-record"})
       \cup (IF Some({"bin"}) THEN {} ELSE {"killed-result"})
       \cup (IF Some({"exp", "rec"}) THEN {} ELSE
             IF \A c \in DOMAIN o.w.exp : (o.w.exp[c] # St.pre.exp[c] \/ o.w.expAtt[c] # St.pre.expAtt[c]) =>
                                            \E k \in 1..Len(path) : path[k].w.exp[c] # St.pre.exp[c] \/ path[k].w.expAtt[c] # St.pre.expAtt[c]
             THEN {"killed-order"} ELSE {"snapshot-changed"})

Micro == /\ ~fin /\ m.pc # "done"
         /\ m' = Step(m)
         /\ path' = IF St.killed THEN Append(path, [w |-> m'.w, log |-> m'.log]) ELSE path
         /\ UNCHANGED <<tid, j, bad, fin>>
Verdict == IF St.killed THEN KilledClauses ELSE Clauses(St.obs)
Finish == /\ ~fin /\ m.pc = "done"
          /\ LET b == Verdict
                 more == j < Len(Tr.steps) /\ b = {}
             IN /\ bad' = IF b = {} THEN bad ELSE Append(bad, [step |-> j, bad |-> b])
                /\ fin' = ~more
                /\ IF more THEN /\ j' = j + 1 /\ m' = Begun(tid, j + 1) /\ path' = <<[w |-> Tr.steps[j + 1].pre, log |-> <<>>]>>
                           ELSE /\ UNCHANGED <<j, m>> /\ path' = <<>>
                /\ (~more => PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> bad', steps |-> j, ran |-> m.ran, rc |-> m.rc,
                                                   todo |-> m.todo, log |-> m.log, w |-> m.w, sum |-> m.sum])))
          /\ UNCHANGED tid
Next == Micro \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
