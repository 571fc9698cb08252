------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* One test run as a state machine over the test stream: what is printed,  *)
(* how it is compared with the snapshot line by line and token by token,   *)
(* which lines are marked, and the preliminary result.                     *)
(*                                                                         *)
(* The state `s` of a run is a record:                                     *)
(*   ex    is there a snapshot?          exp  its lines                    *)
(*   pos   current snapshot line, Len(exp)+1 at the end of the snapshot    *)
(*   tok   tokens of that line not yet consumed                            *)
(*   out   output lines written so far   mark their marks: " ", "?", "!"   *)
(*   side  the snapshot line shown beside every marked line, "" elsewhere, *)
(*         "~" an element of a set (any line of the snapshot's set)        *)
(*   buf   the unfinished output line                                      *)
(*   pd/pe a difference / failure is pending on the unfinished line        *)
(*   chk   the last token was tested (not ignored)                         *)
(*   nd/ne number of differing / failing lines                             *)
(* and three history flags describing how the test uses the stream:        *)
(*   fed   tokens fed into the unfinished line                             *)
(*   mg    some line's fragments merge into other tokens when read back    *)
(*   mid   an anchor or set was placed in the middle of a line             *)
(*   adj   a set was compared with a longer block of snapshot lines        *)
(* Apply(s, op) is the effect of one public call on the test stream.       *)
(***************************************************************************)
EXTENDS Text

AtEnd(s) == s.pos > Len(s.exp)
Line(s)  == s.exp[s.pos]
ToksAt(exp, p) == IF p <= Len(exp) THEN Tokenize(exp[p]) ELSE <<>>

Start(ex, exp) ==
  [ex |-> ex, exp |-> exp, pos |-> 1, tok |-> ToksAt(exp, 1), out |-> <<>>, mark |-> <<>>, side |-> <<>>,
   buf |-> "", pd |-> FALSE, pe |-> FALSE, chk |-> FALSE, nd |-> 0, ne |-> 0,
   fed |-> <<>>, mg |-> FALSE, mid |-> FALSE, adj |-> FALSE]

(* move the snapshot cursor to line p (1 .. Len+1), at its first token *)
GoTo(s, p) == [s EXCEPT !.pos = p, !.tok = ToksAt(s.exp, p)]
Next1(s)   == IF AtEnd(s) THEN s ELSE GoTo(s, s.pos + 1)

(* jump(n): no movement (and no token reset) when already there *)
Jump(s, n) == LET p == Min(Max(n, 1), Len(s.exp) + 1)
              IN IF p = s.pos THEN s ELSE GoTo(s, p)

CommitLine(s) ==
  LET m == IF s.pe THEN "!" ELSE IF s.pd THEN "?" ELSE " " IN
  Next1([s EXCEPT !.out = Append(@, s.buf), !.mark = Append(@, m),
                  !.side = Append(@, IF m = " " THEN "" ELSE IF AtEnd(s) THEN "EOF" ELSE Line(s)), !.buf = "",
                  !.nd = @ + (IF s.pd THEN 1 ELSE 0), !.ne = @ + (IF s.pe THEN 1 ELSE 0),
                  !.pd = FALSE, !.pe = FALSE, !.fed = <<>>,
                  !.mg = @ \/ Tokenize(s.buf) # s.fed])

Newline == "\n"
(* "" stands for "nothing left in the snapshot" *)
ExpToken(s) == IF AtEnd(s) THEN "" ELSE IF s.tok = <<>> THEN Newline ELSE Head(s.tok)

FeedToken(s, t, check) ==
  LET e  == ExpToken(s)
      s1 == [s EXCEPT !.tok = IF @ = <<>> THEN @ ELSE Tail(@), !.chk = check,
                      !.pd = @ \/ (s.ex /\ check /\ t # e)]
  IN IF t = Newline THEN CommitLine(s1) ELSE [s1 EXCEPT !.buf = @ \o t, !.fed = Append(@, t)]

RECURSIVE FeedTokens(_, _, _)
FeedTokens(s, ts, check) ==
  IF ts = <<>> THEN s ELSE FeedTokens(FeedToken(s, Head(ts), check), Tail(ts), check)

T(s, x)   == FeedTokens(s, Tokenize(x), TRUE)
Tln(s, x) == FeedToken(T(s, x), Newline, TRUE)
I(s, x)   == FeedTokens(s, Tokenize(x), FALSE)
Iln(s, x) == FeedToken(I(s, x), Newline, FALSE)
Fail(s)   == [s EXCEPT !.pe = TRUE]
Diff(s)   == [s EXCEPT !.pd = TRUE]

(* search forward from the cursor, then from the top up to the cursor *)
Seek(s, OK(_)) ==
  LET n    == Len(s.exp)
      fwd  == {i \in s.pos..n : OK(s.exp[i])}
      back == {i \in 1..Min(s.pos - 1, n) : OK(s.exp[i])}
      first(S) == CHOOSE i \in S : \A j \in S : i <= j
  IN IF ~ s.ex \/ s.exp = <<>> THEN s
     ELSE IF fwd # {} THEN (IF first(fwd) = s.pos THEN s ELSE GoTo(s, first(fwd)))
     ELSE IF back # {} THEN GoTo(s, first(back))
     ELSE GoTo(s, s.pos)

Mid(s) == [s EXCEPT !.mid = @ \/ s.buf # ""]
Anchor(s, p)   == T(Seek(Mid(s), LAMBDA l : StartsWith(l, p)), p)
Anchorln(s, l) == Tln(Seek(Mid(s), LAMBDA x : x = l), l)
KeyValueln(s, k, v) == Tln(Anchor(s, k), " " \o v)

Header(s, l) ==
  LET s1 == IF s.out # <<>> \/ s.buf # ""
            THEN FeedToken(s, Newline, s.chk /\ ~AtEnd(s)) ELSE s
  IN Tln(Anchorln(s1, l), "")
H(s, level, title) == Header(s, Repeat("#", level) \o " " \o title)

IfLoatln(s, txt, postfix) ==
  LET e  == ExpToken(s)
      s1 == I(s, txt \o postfix)
  IN IF e # Newline /\ IsDecimal(e)
     THEN Iln(s1, " (was " \o Fixed3(e) \o postfix \o ")") ELSE Iln(s1, "")

RECURSIVE TList(_, _, _)
TList(s, items, prefix) ==
  IF items = <<>> THEN s ELSE TList(Tln(s, prefix \o Head(items)), Tail(items), prefix)

(* sets: the block of snapshot lines with the prefix at the cursor *)
RECURSIVE BlockEnd(_, _, _)
BlockEnd(s, p, prefix) ==
  IF p <= Len(s.exp) /\ StartsWith(s.exp[p], prefix) THEN BlockEnd(s, p + 1, prefix) ELSE p
RECURSIVE RemoveOne(_, _)
RemoveOne(q, x) == IF q = <<>> THEN q
                   ELSE IF Head(q) = x THEN Tail(q) ELSE <<Head(q)>> \o RemoveOne(Tail(q), x)
Member(q, x) == \E k \in 1..Len(q) : q[k] = x
RECURSIVE SetItems(_, _, _, _, _)
SetItems(s, items, left, prefix, e) ==
  IF items = <<>> THEN Jump(IF left # <<>> THEN Diff(s) ELSE s, e)
  ELSE LET x  == Head(items)
           s1 == IF s.ex /\ ~Member(left, x) THEN Diff(s) ELSE s
           s2 == Iln(s1, prefix \o x)
       IN SetItems([s2 EXCEPT !.side[Len(s2.side)] = IF @ = "" THEN "" ELSE "~"], Tail(items), RemoveOne(left, x), prefix, e)
TSet(s0, items, prefix) ==
  LET s == [s0 EXCEPT !.mid = @ \/ s0.buf # ""] IN
  IF ~ s.ex THEN SetItems(s, items, <<>>, prefix, s.pos)
  ELSE LET e    == BlockEnd(s, s.pos, prefix)
           left == [k \in 1..(e - s.pos) |-> Drop(s.exp[s.pos + k - 1], Len(prefix))]
           s1   == [(IF e = s.pos THEN s ELSE GoTo(s, e)) EXCEPT !.adj = @ \/ e - s.pos > Len(items)]
       IN SetItems(s1, items, left, prefix, e)

(* tables: columns are records [name, cells]; all have the same length *)
Pad(c) == SetMax({Len(c.cells[i]) : i \in 1..Len(c.cells)}, Len(c.name))
RECURSIVE TableHead(_, _)
TableHead(cols, rule) ==
  IF cols = <<>> THEN ""
  ELSE (IF rule THEN Repeat("-", Pad(Head(cols))) ELSE PadTo(Head(cols).name, Pad(Head(cols))))
       \o "|" \o TableHead(Tail(cols), rule)
RECURSIVE TableRow(_, _, _)
TableRow(s, cols, i) ==
  IF cols = <<>> THEN Tln(s, "")
  ELSE LET c    == Head(cols)
           text == Strip(ReplaceNl(c.cells[i]))
       IN TableRow(T(I(T(s, text), Repeat(" ", Pad(c) - Len(text))), "|"), Tail(cols), i)
RECURSIVE TableRows(_, _, _, _)
TableRows(s, cols, i, n) ==
  IF i > n THEN s ELSE TableRows(TableRow(T(s, "|"), cols, i), cols, i + 1, n)
TDf(s, cols) ==
  TableRows(Tln(Iln(s, "|" \o TableHead(cols, FALSE)), "|" \o TableHead(cols, TRUE)),
            cols, 1, IF cols = <<>> THEN 0 ELSE Len(cols[1].cells))

Assertln(s, cond, msg) ==
  IF cond THEN Iln(s, "ok") ELSE Iln(Fail(s), IF msg = "" THEN "FAILED" ELSE msg)
RECURSIVE Musts(_, _)
Musts(s, ms) ==
  IF ms = <<>> THEN s
  ELSE LET m == Head(ms) IN
       Musts(Assertln(I(s, " * MUST " \o m.title \o "..."), m.cond, m.msg), Tail(ms))

(* tmsln: the measured time, or a failure when it exceeded the limit *)
Tmsln(s, over, txt, ms) == IF over THEN Tln(Fail(s), txt) ELSE IfLoatln(s, ms, " ms")

Apply(s, op) ==
  CASE op.op = "t"        -> T(s, op.x)
    [] op.op = "tln"      -> Tln(s, op.x)
    [] op.op = "i"        -> I(s, op.x)
    [] op.op = "iln"      -> Iln(s, op.x)
    [] op.op = "h"        -> H(s, op.level, op.x)
    [] op.op = "header"   -> Header(s, op.x)
    [] op.op = "anchor"   -> Anchor(s, op.x)
    [] op.op = "anchorln" -> Anchorln(s, op.x)
    [] op.op = "kv"       -> KeyValueln(s, op.x, op.v)
    [] op.op = "tset"     -> TSet(s, op.items, op.prefix)
    [] op.op = "tlist"    -> TList(s, op.items, op.prefix)
    [] op.op = "tdf"      -> TDf(s, op.cols)
    [] op.op = "assertln" -> Assertln(s, op.cond, op.msg)
    [] op.op = "it"       -> Musts(H(s, 2, op.x \o ".."), op.musts)
    [] op.op = "fail"     -> Fail(s)
    [] op.op = "diff"     -> Diff(s)
    [] op.op = "ifloat"   -> IfLoatln(s, op.x, op.post)
    [] op.op = "tms"      -> Tmsln(s, op.over, op.x, op.ms)
    (* an exception (or an attempt to exit) ends the test *)
    [] op.op = "raise"    -> Iln(Fail(Iln(s, "")), "test raised exception " \o op.x \o ":")

(* the end of the test: an unfinished last line is completed and compared *)
End(s) == IF s.buf # "" \/ s.pd \/ s.pe THEN FeedToken(s, Newline, s.chk) ELSE s
Result(s) == IF s.ne > 0 THEN "FAIL" ELSE IF s.nd > 0 \/ ~ s.ex THEN "DIFF" ELSE "OK"

RECURSIVE ApplyAll(_, _)
ApplyAll(s, ops) == IF ops = <<>> THEN s ELSE ApplyAll(Apply(s, Head(ops)), Tail(ops))
Run(ex, exp, ops) == End(ApplyAll(Start(ex, exp), ops))
=============================================================================
