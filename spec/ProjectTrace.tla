---------------------------- MODULE ProjectTrace ----------------------------
(***************************************************************************)
(* Validates recorded invocations of the command line interface against    *)
(* Project: [id, Ps, home, proj, places, steps], where places maps a        *)
(* spelling of the books directory to where it is, and a step is           *)
(* [kind, args, cli, env, answers, accept, fails, edited, obs].            *)
(***************************************************************************)
EXTENDS Project, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, j, proj, full, bad, fin,
          cfg, found, names, loaded   \* what the step has to judge by, computed once
vars == <<tid, j, proj, full, bad, fin, cfg, found, names, loaded>>
Tr == Traces[tid]
St == Tr.steps[j]
O == St.obs
P == Tr.Ps[St.p]

Init == tid \in 1..Len(Traces) /\ j = 1 /\ proj = Traces[tid].proj /\ full = <<>> /\ bad = <<>> /\ fin = FALSE
        /\ cfg = Nothing /\ found = {} /\ names = {} /\ loaded = FALSE

Y     == [home |-> Tr.home, proj |-> proj, env |-> St.env]
Cfg   == cfg
Paths == TestPaths(Cfg)
Here  == Tr.places[BooksPath(Cfg)]
Found == found
Names_ == names
Sel   == IF St.args = <<>> THEN Default(Cfg) ELSE St.args
Chosen == {n \in Names_ : Selects(Sel, n)}
(* a file below the books directory, relative to it *)
In(f)    == Prefix(f, Here \o "/")
Rel(f)   == Drop(f, Len(Here) + 1)
RelSet(fs) == {Rel(f) : f \in {x \in Range(fs) : In(x)}}
IsOut(f) == Prefix(f, ".out/") \/ f = ".out"
Before == RelSet(O.before)
After  == RelSet(O.after)
Changed(f) == IsIn(Here \o "/" \o f, O.changed)

(* nothing outside the books directory changes, but the file that --setup writes *)
Outside ==
  LET made == {f \in Range(O.changed) : ~In(f) /\ f # Here /\ ~(St.kind = "setup" /\ f = ".booktest")
                                        (* what is asked for with --cov *)
                                        /\ ~(St.cov /\ (f \in {"coverage.xml", ".coverage"} \/ Prefix(f, ".coverage.")))
                                        (* directories above the books directory are made when missing *)
                                        /\ ~Prefix(Here, f \o "/")}
  IN IF made = {} THEN {} ELSE {"outside"}

Quiet == (* kinds that change nothing at all *)
  IF St.kind \in {"config", "list", "garbage", "path", "view"} /\ O.changed # <<>> THEN {"effect"} ELSE {}

ListClauses ==
  LET got == O.list
      listed == IF St.kind = "path" THEN [k \in 1..Len(got) |-> IF In(got[k]) /\ EndsWith(got[k], ".md")
                                                              THEN Chop(Rel(got[k]), 3) ELSE "?" \o got[k]] ELSE got
      same(a, b) == \E x \in Found : x.n = a /\ \E y \in Found : y.n = b /\ x.f = y.f
  IN (IF Range(listed) = Chosen THEN {} ELSE {"found"})
     \cup (IF Len(listed) = Cardinality(Range(listed)) THEN {} ELSE {"twice"})
     \cup (IF BookOrder(P, Paths, listed) THEN {} ELSE {"order"})
     (* a module's cases keep their order *)
     \cup (IF \E a, b \in 1..Len(full) : a < b /\ IsIn(full[a], listed) /\ IsIn(full[b], listed) /\ same(full[a], full[b])
                 /\ Position(listed, full[a]) > Position(listed, full[b])
           THEN {"order-unstable"} ELSE {})

Tests == SelectSeq(O.events, LAMBDA e : e.e = "test")
IdsOf(ns) == UNION {Ids(Found, n) : n \in ns}
HadSnapshot(n) == (n \o ".md") \in Before
Failed(n) == \E i \in Ids(Found, n) : IsIn(i, St.fails)
(* an interruption or a fail-fast ends the run: what was not reached is not judged *)
Partial == St.partial \/ On(Cfg, "fail_fast")
Times(i) == Cardinality({k \in 1..Len(Tests) : Tests[k].id = i})
Called(i, ns) == Cardinality({n \in ns : i \in Ids(Found, n)})
ResultOf(n) == IF Failed(n) THEN "FAIL" ELSE IF HadSnapshot(n) \/ St.accept THEN "OK" ELSE "DIFF"
RecOf(n) == LET h == SelectSeq(O.rec, LAMBDA e : e[1] = n) IN IF h = <<>> THEN "" ELSE h[1][2]
RunClauses ==
  LET ran == {n \in Chosen : ~Partial \/ \E k \in 1..Len(Tests) : Tests[k].id \in Ids(Found, n)}
      ids == {Tests[k].id : k \in 1..Len(Tests)} IN
  (IF ids \subseteq IdsOf(Chosen) /\ (IF Partial THEN \A i \in ids : Times(i) <= Called(i, Chosen)
                                      ELSE \A i \in IdsOf(Chosen) : Times(i) = Called(i, Chosen))
   THEN {} ELSE {"executed"})
  \cup (IF \A n \in ran : n \in DOMAIN O.ids /\ O.ids[n] \in Ids(Found, n) THEN {} ELSE IF Partial THEN {} ELSE {"identity"})
  \cup (IF Partial \/ \A n \in Chosen : RecOf(n) = ResultOf(n) THEN {} ELSE {"result"})
  \cup (IF Partial \/ (O.rc = "0") = (\A n \in Chosen : ResultOf(n) = "OK") THEN {} ELSE {"status"})
  \cup (IF Partial \/ Range(O.index) = Names_ THEN {} ELSE {"index"})
  \cup (IF {f \in After : ~IsOut(f)} \ {"index.md"}
           = ({f \in Before : ~IsOut(f)} \ {"index.md"})
             \cup (IF St.accept THEN {n \o ".md" : n \in {x \in ran : ~Failed(x) /\ RecOf(x) = "OK"}} ELSE {})
        THEN {} ELSE {"placed"})

(* the setups under the test paths that an invocation uses: one of them, in every process *)
Active == {k \in 1..Len(P.setups) : \E q \in 1..Len(Paths) : Under1(P.setups[k][1], Paths[q])}
Brackets ==
  LET ev == O.events IN
  IF Active = {}
  THEN (IF \E k \in 1..Len(ev) : ev[k].e \in {"setup", "teardown"} THEN {"wrong-setup"} ELSE {})
  ELSE (IF \E k \in 1..Len(ev) : ev[k].e = "test" /\ ~OpenAt(ev, ev[k].pid, k) THEN {"not-set-up"} ELSE {})
       \cup (IF \E p \in Pids(ev) : OpenAt(Append(ev, [pid |-> p, e |-> "end"]), p, Len(ev) + 1) THEN {"not-torn-down"} ELSE {})
       \cup (IF \E k \in 1..Len(ev) : ev[k].e \in {"setup", "teardown"} /\ ~ \E a \in Active : P.setups[a][2] = ev[k].id
             THEN {"wrong-setup"} ELSE {})
       (* no setup within a setup, no teardown without one *)
       \cup (IF \E k \in 1..Len(ev) : (ev[k].e = "setup" /\ OpenAt(ev, ev[k].pid, k))
                                      \/ (ev[k].e = "teardown" /\ ~OpenAt(ev, ev[k].pid, k)) THEN {"bracket-nested"} ELSE {})

GarbageClauses ==
  LET g == Garbage(Before, Names_)
      shown == {Rel(f) : f \in {x \in Range(O.list) : In(x)}}
  IN (IF shown = g /\ \A f \in Range(O.list) : In(f) THEN {} ELSE {"garbage"})
     \cup (IF Len(O.list) = Cardinality(Range(O.list)) THEN {} ELSE {"garbage"})
     \cup (IF St.kind = "clean"
           THEN (IF After = Before \ g THEN {} ELSE IF After \subseteq Before \ g THEN {"kept-deleted"} ELSE {"not-cleaned"})
                \cup (IF \E f \in After : Changed(f) THEN {"kept-changed"} ELSE {})
           ELSE {})

(* the options on the command line, over the layers *)
ConfigClauses ==
  LET want == Pairs(St.cli, Cfg) IN
  IF Range(O.list) = {k \o "=" \o want[k] : k \in DOMAIN want} /\ Len(O.list) = Cardinality(DOMAIN want)
  THEN {} ELSE {"config"}

Ends == IF O.rc \in {"0", "1", "255"} \/ Partial THEN {} ELSE {"broke-down"}
StatusZero == IF St.kind \notin {"run", "review", "forget"} /\ O.rc # "0" THEN {"status"} ELSE {}
Clauses ==
  IF O.status # "done" THEN {O.status}
  ELSE Outside \cup Quiet \cup Ends \cup
       (CASE St.kind = "config" -> ConfigClauses
          [] St.kind \in {"list", "path"} -> ListClauses
          [] St.kind = "run" -> RunClauses \cup Brackets
          [] St.kind \in {"garbage", "clean"} -> GarbageClauses
          [] OTHER -> {}) \cup StatusZero

Load ==
  /\ ~fin /\ ~loaded
  /\ cfg' = Layered(Y)
  /\ found' = CaseSet(P, TestPaths(cfg'))
  /\ names' = CaseNames(found')
  /\ loaded' = TRUE
  /\ UNCHANGED <<tid, j, proj, full, bad, fin>>
Step ==
  /\ ~fin /\ loaded
  /\ LET b == Clauses
         more == b = {} /\ j < Len(Tr.steps)
     IN /\ bad' = IF b = {} THEN bad ELSE Append(bad, [step |-> j, bad |-> b])
        /\ fin' = ~more
        /\ j' = IF more THEN j + 1 ELSE j
        /\ proj' = IF St.kind = "setup" /\ O.rc = "0" THEN SetupLines(Cfg, St.answers) ELSE proj
        /\ full' = IF St.kind = "list" /\ full = <<>> THEN O.list ELSE full
        /\ (~more => PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> bad', steps |-> j, cfg |-> Cfg, cases |-> Found,
                                             chosen |-> Chosen, garbage |-> Garbage(Before, Names_), books |-> Here])))
  /\ loaded' = FALSE
  /\ UNCHANGED <<tid, cfg, found, names>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
