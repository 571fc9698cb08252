-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* A booktest invocation as a machine of small steps over the state kept   *)
(* on disk.  Killing the process between any two steps leaves the world of *)
(* the last step.                                                          *)
(*                                                                         *)
(* World w (all functions over cases; "" means absent, "~" undetermined, a result None is "None"):  *)
(*   exp, expAtt  snapshot and its attachments                             *)
(*   out, outAtt  output of the last execution, not accepted               *)
(*   bin          stored result                                            *)
(*   rec          result record: sequence of <<case, result>>              *)
(*   dot, met     does .out / do its metrics exist       idx  the index    *)
(* Invocation inv: cmd, flags c f a u i I r p, selection sel, answers ans, *)
(*   cap the capacity of the memory cache (which may not show in what is observed). *)
(* Scripts sc: case -> [text, mode, ret, att] what its test does now.      *)
(***************************************************************************)
EXTENDS Names

Known(w) == {c \in DOMAIN w.bin : w.bin[c] # ""}
RecOf(rec, c) == LET hits == SelectSeq(rec, LAMBDA e : e[1] = c)
                 IN IF hits = <<>> THEN "" ELSE hits[1][2]

Start(S, w, inv, sc) ==
  [S |-> S, w |-> w, inv |-> inv, sc |-> sc, pc |-> "begin",
   cases |-> <<>>, todo |-> <<>>, recs |-> <<>>, reviews |-> <<>>, k |-> 1,
   cur |-> "", res |-> "", ret |-> "", text |-> "", att |-> "",
   req |-> "", fails |-> 0, abort |-> FALSE, bad |-> FALSE, ans |-> inv.ans,
   log |-> <<>>, tools |-> <<>>, ran |-> <<>>, acc |-> <<>>, list |-> <<>>, rc |-> "", sum |-> [n |-> 0, failed |-> <<>>]]

(* results of the dependencies of case c: [ok, args].  A dependent gets what the latest successful      *)
(* execution stored - whichever process ran it, and whatever a memory cache of this process still holds *)
RECURSIVE Args(_, _, _, _)
Args(m, c, k, args) ==
  IF k > Len(m.S.deps[c]) THEN [ok |-> TRUE, args |-> args]
  ELSE LET f == m.S.deps[c][k]
           d == Resolve(m.S, c, f) IN
       (* a resource is passed as its value *)
       IF Prefix(f, "=port ") THEN Args(m, c, k + 1, Append(args, SubSeq(f, 7, Len(f))))
       ELSE IF Prefix(f, "=") THEN Args(m, c, k + 1, Append(args, SubSeq(f, 2, Len(f))))
       ELSE IF d = "" \/ m.w.bin[d] = "" THEN [ok |-> FALSE, args |-> args]
       ELSE Args(m, c, k + 1, Append(args, m.w.bin[d]))

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))
Text(script, args) == IF args = <<>> THEN script.text ELSE script.text \o "(" \o Join(args) \o ")"

(* the dialogue: [req, ans, calls] with req "none", "freeze", "quit", "eof" and the tools asked for *)
RECURSIVE Dialogue(_, _, _)
Dialogue(ans, res, calls) ==
  IF ans = <<>> THEN [req |-> "eof", ans |-> <<>>, calls |-> calls]
  ELSE CASE ans[1] = "a" /\ res # "FAIL" -> [req |-> "freeze", ans |-> Tail(ans), calls |-> calls]
         [] ans[1] = "c" -> [req |-> "none", ans |-> Tail(ans), calls |-> calls]
         [] ans[1] = "q" -> [req |-> "quit", ans |-> Tail(ans), calls |-> calls]
         [] ans[1] \in {"v", "l", "d", "D"} -> Dialogue(Tail(ans), res, Append(calls, ans[1]))
         [] OTHER -> Dialogue(Tail(ans), res, calls)
Ask(m, res) == IF m.inv.I \/ (m.inv.i /\ res # "OK") THEN Dialogue(m.ans, res, <<>>)
               ELSE [req |-> "none", ans |-> m.ans, calls |-> <<>>]
(* the files a tool is started with, relative to the books directory *)
ToolCall(m, c, t) ==
  CASE t = "l" -> <<t, ".out/" \o c \o ".log">>
    [] t = "v" /\ m.w.exp[c] = "" -> <<t, ".out/" \o c \o ".md">>
    [] OTHER -> <<t, c \o ".md", ".out/" \o c \o ".md">>
ToolCalls(m, c, calls) ==
  IF m.inv.tools THEN [k \in 1..Len(calls) |-> ToolCall(m, c, calls[k])] ELSE <<>>
Accepts(m, res, req) == req = "freeze" \/ (res = "OK" /\ m.inv.u) \/ (res = "DIFF" /\ m.inv.a)

Set1(f, c, v) == [f EXCEPT ![c] = v]

(* freezing in three steps, then pc "frozen" *)
Freeze1(m) ==
  IF m.w.out[m.cur] = "" /\ m.w.outAtt[m.cur] = "" THEN [m EXCEPT !.pc = "frozen"]
  ELSE [m EXCEPT !.pc = "freeze2", !.w.expAtt[m.cur] = IF @ = "" THEN "" ELSE "~"]
Freeze2(m) ==
  [m EXCEPT !.pc = "freeze3", !.w.expAtt[m.cur] = "",
            !.w.exp[m.cur] = IF m.w.out[m.cur] = "" THEN @ ELSE m.w.out[m.cur],
            !.w.out[m.cur] = ""]
Freeze3(m) ==
  [m EXCEPT !.pc = "frozen", !.w.expAtt[m.cur] = m.w.outAtt[m.cur], !.w.outAtt[m.cur] = ""]

(* what a listing shows: names, paths, or the snapshots themselves; viewing does not leave out what passed *)
Listed(m, cases, todo) ==
  CASE m.inv.via = "--print" -> [k \in 1..Len(SelectSeq(todo, LAMBDA c : m.w.exp[c] # "")) |->
                                  m.w.exp[SelectSeq(todo, LAMBDA c : m.w.exp[c] # "")[k]]]
    [] m.inv.via = "--view"  -> <<>>
    [] OTHER                 -> todo

Viewed(m, cases) ==
  LET vs == SelectSeq(cases, LAMBDA c : m.w.exp[c] # "") IN
  IF m.inv.via # "--view" \/ ~m.inv.tools \/ vs = <<>> THEN <<>>
  ELSE <<(<<"v">> \o [k \in 1..Len(vs) |-> vs[k] \o ".md"])>>

Begin(m) ==
  LET sel   == m.inv.sel
      cases == Cases(m.S, sel, IF m.inv.r THEN {} ELSE Known(m.w))
      todo  == IF m.inv.c THEN SelectSeq(cases, LAMBDA c : RecOf(m.w.rec, c) # "OK") ELSE cases
      m1    == [m EXCEPT !.cases = cases, !.todo = todo, !.recs = m.w.rec]
  IN CASE m.inv.cmd = "run"    -> [m1 EXCEPT !.pc = "keep", !.w.dot = TRUE]
       [] m.inv.cmd = "review" -> 
            (* without any earlier run there is nothing to review or forget: the status is not specified *)
            IF m.w.dot THEN [m1 EXCEPT !.pc = "rnext"] ELSE [m1 EXCEPT !.pc = "done", !.rc = "?"]
       [] m.inv.cmd = "forget" -> IF m.w.dot
            THEN [m1 EXCEPT !.pc = "done", !.rc = "0", !.w.rec = SelectSeq(@, LAMBDA e : ~IsIn(e[1], cases))]
            ELSE [m1 EXCEPT !.pc = "done", !.rc = "?"]
       [] m.inv.cmd = "list"   -> [m1 EXCEPT !.pc = "done", !.rc = "0", !.list = Listed(m, cases, todo),
                                        (* the viewer is started with all the snapshots *)
                                        !.tools = Viewed(m, cases)]

(* ---------------- running ---------------- *)
Keep(m) == [m EXCEPT !.pc = "next", !.w.rec = SelectSeq(@, LAMBDA e : ~IsIn(e[1], m.todo))]
NextCase(m) ==
  IF m.k > Len(m.todo) \/ m.abort THEN [m EXCEPT !.pc = "metrics"]
  ELSE [m EXCEPT !.pc = "open", !.cur = m.todo[m.k]]
Open(m) == [m EXCEPT !.pc = "body", !.w.out[m.cur] = "~", !.w.outAtt[m.cur] = "~"]
Body(m) ==
  LET s == m.sc[m.cur]
      a == Args(m, m.cur, 1, <<>>)
      t == Text(s, a.args)
  IN IF ~a.ok
     THEN [m EXCEPT !.pc = "close", !.res = "FAIL", !.ret = "", !.text = "<empty>", !.att = ""]
     ELSE LET m2 == [m EXCEPT !.log = Append(@, [c |-> m.cur, args |-> a.args])] IN
          IF s.mode \in {"kbd", "cancel"} /\ ~m.inv.p THEN [m2 EXCEPT !.pc = "done", !.rc = "exc"]
          ELSE [m2 EXCEPT !.pc = "close", !.att = s.att, 
                          (* a worker interrupted in a test may have written any part of its output *)
                          !.text = IF s.mode \in {"kbd", "cancel"} THEN "~" ELSE t, !.ret = IF s.ret = "" THEN "None" ELSE s.ret,
                          !.res = IF s.mode # "ok" THEN "FAIL"
                                  ELSE IF m.w.exp[m.cur] = t THEN "OK" ELSE "DIFF"]
Close(m) ==
  LET d  == Ask(m, m.res)
      m1 == [m EXCEPT !.w.out[m.cur] = m.text, !.w.outAtt[m.cur] = m.att, !.ans = d.ans, !.req = d.req,
                            !.tools = @ \o ToolCalls(m, m.cur, d.calls)]
  IN IF d.req = "eof" THEN [m1 EXCEPT !.pc = "done", !.rc = "exc"]
     ELSE IF Accepts(m, m.res, d.req) THEN [m1 EXCEPT !.pc = "freeze1"]
     ELSE [m1 EXCEPT !.pc = "save"]
Save(m) ==
  IF m.res = "FAIL" THEN [m EXCEPT !.pc = "record"]
  ELSE [m EXCEPT !.pc = "record", !.w.bin[m.cur] = m.ret]
Record(m) ==
  LET fails == m.fails + (IF m.res = "OK" THEN 0 ELSE 1) IN
  [m EXCEPT !.pc = "next", !.k = @ + 1, !.w.rec = Append(@, <<m.cur, m.res>>),
            !.ran = Append(@, <<m.cur, m.res>>), !.fails = fails,
            !.abort = m.req = "quit" \/ (m.inv.f /\ fails > 0), !.req = "", !.cur = ""]
Metrics(m)  == [m EXCEPT !.pc = "metrics2", !.w.met = FALSE]
Metrics2(m) == [m EXCEPT !.pc = "index", !.w.met = TRUE]
Index(m)    == [m EXCEPT !.pc = "index2", !.w.idx = "~"]
Index2(m) ==
  [m EXCEPT !.pc = "done", !.w.idx = "full", !.rc = IF m.fails = 0 THEN "0" ELSE "1",
            !.sum = [n |-> Len(m.ran),
                     failed |-> [k \in 1..m.fails |-> (SelectSeq(m.ran, LAMBDA e : e[2] # "OK"))[k][1]]]]

(* ---------------- reviewing ---------------- *)
ReviewNext(m) ==
  IF m.k > Len(m.recs) THEN [m EXCEPT !.pc = "rend"]
  ELSE LET e == m.recs[m.k] IN
       IF ~m.abort /\ IsIn(e[1], m.cases) /\ ~(m.inv.c /\ e[2] = "OK")
       THEN LET d  == Ask(m, e[2])
                m1 == [m EXCEPT !.cur = e[1], !.res = e[2], !.ans = d.ans, !.req = d.req,
                                          !.tools = @ \o ToolCalls(m, e[1], d.calls)]
            IN IF d.req = "eof" THEN [m1 EXCEPT !.pc = "done", !.rc = "exc"]
               ELSE IF Accepts(m, e[2], d.req) THEN [m1 EXCEPT !.pc = "freeze1"]
               ELSE [m1 EXCEPT !.pc = "reviewed"]
       ELSE [m EXCEPT !.reviews = Append(@, e), !.k = @ + 1]
Reviewed(m) ==
  [m EXCEPT !.pc = "rnext", !.k = @ + 1, !.reviews = Append(@, <<m.cur, m.res>>),
            !.ran = Append(@, <<m.cur, m.res>>),
            !.abort = m.req = "quit" \/ (m.inv.f /\ m.res # "OK"), !.req = "", !.cur = ""]
ReviewEnd(m) ==
  LET failed == SelectSeq(m.reviews, LAMBDA e : e[2] # "OK") IN
  [m EXCEPT !.pc = "done", !.w.rec = m.reviews, !.rc = IF failed = <<>> THEN "0" ELSE "1",
            !.sum = [n |-> Len(m.reviews), failed |-> [k \in 1..Len(failed) |-> failed[k][1]]]]

Frozen(m) ==
  [m EXCEPT !.pc = IF m.inv.cmd = "run" THEN "save" ELSE "reviewed", !.res = "OK", !.acc = Append(@, m.cur)]

Step(m) ==
  CASE m.pc = "begin"    -> Begin(m)
    [] m.pc = "keep"     -> Keep(m)
    [] m.pc = "next"     -> NextCase(m)
    [] m.pc = "open"     -> Open(m)
    [] m.pc = "body"     -> Body(m)
    [] m.pc = "close"    -> Close(m)
    [] m.pc = "freeze1"  -> Freeze1(m)
    [] m.pc = "freeze2"  -> Freeze2(m)
    [] m.pc = "freeze3"  -> Freeze3(m)
    [] m.pc = "frozen"   -> Frozen(m)
    [] m.pc = "save"     -> Save(m)
    [] m.pc = "record"   -> Record(m)
    [] m.pc = "metrics"  -> Metrics(m)
    [] m.pc = "metrics2" -> Metrics2(m)
    [] m.pc = "index"    -> Index(m)
    [] m.pc = "index2"   -> Index2(m)
    [] m.pc = "rnext"    -> ReviewNext(m)
    [] m.pc = "reviewed" -> Reviewed(m)
    [] m.pc = "rend"     -> ReviewEnd(m)
=============================================================================
