------------------------------- MODULE RunMC -------------------------------
(***************************************************************************)
(* All histories of at most N invocations over a suite of three cases,     *)
(* where the process may be killed between any two steps and what the      *)
(* tests do changes between invocations.  Ghost state records what the     *)
(* tests really did; the properties relate the world to it.                *)
(***************************************************************************)
EXTENDS Run, Json
CONSTANTS N, Kill, Big

S == [names |-> <<"t/b", "t/a", "u">>,
      fn |-> [c \in {"t/a", "t/b", "u"} |-> c], inst |-> [c \in {"t/a", "t/b", "u"} |-> ""],
      deps |-> [c \in {"t/a", "t/b", "u"} |-> IF c = "t/b" THEN <<"t/a">> ELSE <<>>]]
C == {"t/a", "t/b", "u"}

Sc(t, mode, ret, att) == [text |-> t, mode |-> mode, ret |-> ret, att |-> att]
Scripts ==
  {[c \in C |-> Sc("x", "ok", IF c = "t/a" THEN "" ELSE "1", "f=1")],
   [c \in C |-> IF c = "t/a" THEN Sc("x", "fail", "2", "f=1") ELSE Sc("x", "ok", IF c = "t/a" THEN "" ELSE "1", "f=1")],
   [c \in C |-> IF c = "u" THEN Sc("x", "fail", "1", "") ELSE Sc("y", "ok", "2", "g=1")]}
  \cup (IF Big THEN {[c \in C |-> IF c = "t/b" THEN Sc("y", "fail", "1", "f=1") ELSE Sc("y", "ok", "1", "")]} ELSE {})

F0 == [cmd |-> "run", via |-> "", tools |-> FALSE, c |-> FALSE, f |-> FALSE, a |-> FALSE, u |-> FALSE, i |-> FALSE, I |-> FALSE, r |-> FALSE,
       p |-> FALSE, sel |-> <<"*">>, ans |-> <<>>, cap |-> 1]
Invs ==
  { F0, [F0 EXCEPT !.a = TRUE], [F0 EXCEPT !.c = TRUE], [F0 EXCEPT !.c = TRUE, !.a = TRUE],
    [F0 EXCEPT !.f = TRUE], [F0 EXCEPT !.sel = <<"t/b">>, !.a = TRUE], [F0 EXCEPT !.sel = <<"skip:t">>],
    [F0 EXCEPT !.i = TRUE, !.ans = <<"a", "q">>],
    [F0 EXCEPT !.cmd = "review", !.a = TRUE], [F0 EXCEPT !.cmd = "review", !.i = TRUE, !.ans = <<"c", "a">>],
    [F0 EXCEPT !.cmd = "forget", !.sel = <<"t">>] }
  \cup (IF Big THEN
  { [F0 EXCEPT !.u = TRUE], [F0 EXCEPT !.r = TRUE, !.sel = <<"t/b">>], [F0 EXCEPT !.I = TRUE, !.ans = <<"a", "a", "a">>],
    [F0 EXCEPT !.cmd = "review", !.f = TRUE, !.a = TRUE], [F0 EXCEPT !.cmd = "review", !.c = TRUE, !.I = TRUE, !.ans = <<"a">>],
    [F0 EXCEPT !.cmd = "review", !.sel = <<"u">>, !.a = TRUE] } ELSE {})

(* the harness runs these histories on the real code, too *)
ASSUME PrintT("@V " \o ToJson([S |-> S, invs |-> Invs, scripts |-> Scripts]))

None == [c \in C |-> ""]
W0 == [exp |-> None, expAtt |-> None, out |-> None, outAtt |-> None, bin |-> None,
       rec |-> <<>>, dot |-> FALSE, met |-> FALSE, idx |-> ""]

VARIABLES m, g, n
vars == <<m, g, n>>
(* ghost: text, attachments, verdict and returned value of the last finished execution; accepted since? *)
G0 == [text |-> None, att |-> None, fail |-> [c \in C |-> FALSE], ret |-> None, acc |-> [c \in C |-> FALSE],
       fresh |-> [c \in C |-> ""]]

Init == /\ n = 1 /\ g = G0
        /\ \E inv \in Invs, sc \in Scripts : m = Start(S, W0, inv, sc)

Again == /\ n < N
         /\ n' = n + 1
         /\ \E inv \in Invs, sc \in Scripts :
              m' = Start(S, m.w, inv, sc)
         /\ UNCHANGED g
(* the process ends here, and another is started *)
Killed == Kill /\ m.pc \notin {"done", "begin"} /\ Again
Following == m.pc = "done" /\ Again

Micro ==
  /\ m.pc # "done"
  /\ m' = Step(m)
  /\ n' = n
  /\ g' = CASE m.pc = "close" ->
                [g EXCEPT !.text[m.cur] = m.text, !.att[m.cur] = m.att, !.fail[m.cur] = (m.res = "FAIL"), !.acc[m.cur] = FALSE]
            [] m.pc = "freeze2" -> [g EXCEPT !.acc[m.cur] = TRUE]
            [] m.pc = "save" -> IF m.res = "FAIL" THEN g ELSE [g EXCEPT !.ret[m.cur] = m.ret]
            [] OTHER -> g
Next == Micro \/ Following \/ Killed
Spec == Init /\ [][Next]_vars

Ok(c) == RecOf(m.w.rec, c) = "OK"

(* C08 / C11: what is recorded ok really passed, and its acceptance is complete *)
RecordedOkIsTrue ==
  \A c \in C : Ok(c) => /\ m.w.exp[c] = g.text[c] /\ ~g.fail[c]
                        /\ (g.acc[c] => m.w.expAtt[c] = g.att[c])
(* C08: no torn snapshot *)
SnapshotWhole == \A c \in C : m.w.exp[c] \in {"", "x", "y", "x(None)", "y(None)", "x(1)", "x(2)", "y(1)", "y(2)"}
(* C05 *)
FailureStays == \A c \in C : (g.fail[c] /\ RecOf(m.w.rec, c) # "") => (RecOf(m.w.rec, c) = "FAIL" \/ m.cur = c)
FailureNotInstalled == [][\A c \in C : m'.w.exp[c] # m.w.exp[c] => ~g.fail[c]]_vars
(* C07 *)
OnlyAcceptance ==
  [][\A c \in C : (m'.w.exp[c] # m.w.exp[c] \/ m'.w.expAtt[c] # m.w.expAtt[c]) =>
        /\ m.inv.a \/ m.inv.u \/ IsIn("a", m.inv.ans)
        /\ m.inv.cmd \in {"run", "review"} /\ IsIn(c, m.cases)]_vars
(* C10 *)
OneEntry == \A c \in C : Len(SelectSeq(m.w.rec, LAMBDA e : e[1] = c)) <= 1
(* C11: results of cases the invocation does not execute survive every step *)
ResultsKept == [][\A c \in C : (m.pc # "begin" /\ m.inv.cmd = "run" /\ ~IsIn(c, m.todo)) =>
                                 RecOf(m'.w.rec, c) = RecOf(m.w.rec, c)]_vars
ContinueExact ==
  (m.pc = "done" /\ m.inv.cmd = "run" /\ m.inv.c /\ ~m.abort /\ m.rc # "exc") =>
     \A c \in C : IsIn(c, m.cases) => ((\E k \in 1..Len(m.ran) : m.ran[k][1] = c) <=> RecOf(m.recs, c) # "OK")
(* C09 *)
StatusTrue ==
  (m.pc = "done" /\ m.inv.cmd \in {"run", "review"}) =>
     /\ (m.rc = "0") => \A k \in 1..Len(m.ran) : m.ran[k][2] = "OK"
     /\ (m.rc = "0" /\ m.inv.cmd = "review") => \A k \in 1..Len(m.w.rec) : m.w.rec[k][2] = "OK"
     /\ (m.rc = "1") => \E k \in 1..Len(m.w.rec) : m.w.rec[k][2] # "OK"
(* C12 *)
FailFast ==
  (m.inv.f /\ m.inv.cmd = "run") =>
     \A k \in 1..Len(m.ran) : m.ran[k][2] # "OK" => k = Len(m.ran)
EverythingRuns ==
  (m.pc = "done" /\ m.inv.cmd = "run" /\ m.rc # "exc" /\ ~m.inv.f /\ ~IsIn("q", m.inv.ans)) =>
     Len(m.ran) = Len(m.todo)
(* C13 *)
Order ==
  /\ \A x, y \in 1..Len(m.log) : x # y => m.log[x].c # m.log[y].c
  /\ \A x, y \in 1..Len(m.log) : (m.log[x].c = "t/b" /\ m.log[y].c = "t/a") => y < x
  /\ \A x \in 1..Len(m.log) : Selects(m.inv.sel, m.log[x].c)
                               \/ (m.log[x].c = "t/a" /\ IsIn("t/b", m.cases))
(* C14: the argument is the value of the dependency's last execution that did not fail *)
LatestResult ==
  \A x \in 1..Len(m.log) : (m.log[x].c = "t/b" /\ x = Len(m.log) /\ m.pc = "close") => m.log[x].args = <<g.ret["t/a"]>>
=============================================================================
