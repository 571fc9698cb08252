------------------------------ MODULE CompareMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the comparison engine: every test program of  *)
(* at most N calls is run without a snapshot, its output is accepted, and  *)
(* the program is run again with every combination of variations of its    *)
(* calls.  Each variation is of a kind:                                    *)
(*    same   the same tested text            ign   other ignored text      *)
(*    chg    other tested text               fail  a failure               *)
(* The invariants state C01-C06 over the second run, without reference to  *)
(* how the comparison works.  With Emit, every finished history is printed *)
(* for replay on the real code.                                            *)
(***************************************************************************)
EXTENDS Compare, Json
CONSTANTS N, Emit, Sections
MCAlnum == {}
MCNumeric == {}

O(k, x) == [op |-> k, x |-> x]
TableOf(c) == [op |-> "tdf", cols |-> <<[name |-> "n", cells |-> <<c, "x">>], [name |-> "m", cells |-> <<"1", "22">>]>>]
SetOf(q)  == [op |-> "tset", items |-> q, prefix |-> " * "]
ListOf(q) == [op |-> "tlist", items |-> q, prefix |-> " * "]
Float(x)  == [op |-> "ifloat", x |-> x, post |-> " ms"]
Head1(x)  == [op |-> "h", level |-> 1, x |-> x]
Kv(k, v)  == [op |-> "kv", x |-> k, v |-> v]
Check(c) == [op |-> "assertln", cond |-> c, msg |-> ""]

V(kind, op) == [kind |-> kind, op |-> op]
(* the calls, each with its variations; the first is the original *)
Calls == <<
  << V("same", O("t", "a")),        V("chg", O("t", "b")),        V("chg", O("t", "7")) >>,
  << V("same", O("t", "1.5")),      V("chg", O("t", "1.25")) >>,
  << V("same", O("t", " ")),        V("chg", O("t", "  ")) >>,
  << V("same", O("tln", "a -2")),   V("chg", O("tln", "a 2")),    V("chg", O("tln", "a -2 b")), V("chg", O("tln", "a")) >>,
  << V("same", O("tln", "")),       V("chg", O("tln", "z")) >>,
  << V("same", O("i", "q")),        V("ign", O("i", "rst")) >>,
  << V("same", O("iln", "log 1")),  V("ign", O("iln", "other, longer text")), V("ign", O("iln", "")) >>,
  << V("same", Head1("s")),         V("chg", Head1("missing")) >>,
  << V("same", Head1("r")) >>,
  << V("same", O("anchorln", "s")), V("chg", O("anchorln", "nowhere")) >>,
  << V("same", Kv("k", "1")),       V("chg", Kv("k", "2")) >>,
  << V("same", SetOf(<<"a", "b">>)), V("same", SetOf(<<"b", "a">>)), V("chg", SetOf(<<"a">>)),
     V("chg", SetOf(<<"a", "c">>)), V("chg", SetOf(<<"a", "b", "c">>)), V("chg", SetOf(<<>>)) >>,
  << V("same", SetOf(<<>>)),        V("chg", SetOf(<<"a">>)) >>,
  << V("same", ListOf(<<"a", "b">>)), V("chg", ListOf(<<"b", "a">>)) >>,
  << V("same", TableOf("v")),       V("chg", TableOf("w")), V("chg", TableOf("long")) >>,
  << V("same", Check(TRUE)),       V("fail", Check(FALSE)) >>,
  << V("same", Float("2.500")),     V("ign", Float("-1.000")) >>,
  << V("same", O("i", "")),         V("fail", [op |-> "fail"]), V("diff", [op |-> "diff"]),
     V("fail", O("raise", "e")) >>
>>
SectionCalls == {4, 6, 7, 8, 9, 12}
Pool == IF Sections THEN SectionCalls ELSE 1..Len(Calls)

VARIABLES phase,   \* "first" run, "second" run, "end"
          prog,    \* indices of the calls of the first run
          vars2,   \* variation chosen per call of the second run
          a, b     \* states of the first and the second run
vars == <<phase, prog, vars2, a, b>>

Init == phase = "first" /\ prog = <<>> /\ vars2 = <<>> /\ a = Start(FALSE, <<>>) /\ b = Start(FALSE, <<>>)

Call == /\ phase = "first" /\ Len(prog) < N
        /\ \E c \in Pool : /\ prog' = Append(prog, c)
                           /\ a' = Apply(a, Calls[c][1].op)
        /\ UNCHANGED <<phase, vars2, b>>
Accept == /\ phase = "first" /\ prog # <<>>
          /\ a' = End(a)
          /\ b' = Start(TRUE, a'.out)
          /\ phase' = "second"
          /\ UNCHANGED <<prog, vars2>>
Again == /\ phase = "second" /\ Len(vars2) < Len(prog)
         /\ \E v \in 1..Len(Calls[prog[Len(vars2) + 1]]) :
              /\ vars2' = Append(vars2, v)
              /\ b' = Apply(b, Calls[prog[Len(vars2) + 1]][v].op)
         /\ UNCHANGED <<phase, prog, a>>
Finish == /\ phase = "second"
          /\ \/ Len(vars2) = Len(prog)
             \/ vars2 # <<>> /\ Calls[prog[Len(vars2)]][vars2[Len(vars2)]].op.op = "raise"
          /\ b' = End(b)
          /\ phase' = "end"
          /\ UNCHANGED <<prog, vars2, a>>
          /\ (Emit => PrintT("@V " \o ToJson(
                [ops |-> [k \in 1..Len(vars2) |-> Calls[prog[k]][vars2[k]].op],
                 snap |-> a.out, res |-> Result(b'), out |-> b'.out, mark |-> b'.mark])))
(* nothing follows an exception *)
Stopped == vars2 # <<>> /\ Calls[prog[Len(vars2)]][vars2[Len(vars2)]].op.op = "raise"
Next == Call \/ Accept \/ (~Stopped /\ Again) \/ Finish
Spec == Init /\ [][Next]_vars

Kinds == {Calls[prog[k]][vars2[k]].kind : k \in 1..Len(vars2)}
Plain == ~a.mg /\ ~b.mg /\ ~a.mid /\ ~b.mid /\ ~b.adj

(* C02: only ignored text changed *)
UnchangedPasses == (phase = "end" /\ Kinds \subseteq {"same", "ign"} /\ Plain) => Result(b) = "OK"
(* C01, C03, C04: tested text changed; nothing moved *)
ChangedDiffers == (phase = "end" /\ Kinds \subseteq {"same", "ign", "chg"} /\ "chg" \in Kinds /\ Plain) => Result(b) # "OK"
(* C05 *)
FailureFails == (phase = "end") => ((Result(b) = "FAIL") <=> ("fail" \in Kinds))
ManualDiff   == (phase = "end" /\ "diff" \in Kinds) => Result(b) # "OK"
(* C06: the output does not depend on the snapshot; marks and lines correspond *)
Plain2(ops) == Run(FALSE, <<>>, ops)
Faithful ==
  phase = "end" =>
    /\ Len(b.mark) = Len(b.out)
    /\ b.ne = Cardinality({k \in 1..Len(b.mark) : b.mark[k] = "!"})
    /\ (\E k \in 1..Len(b.mark) : b.mark[k] = "!") <=> (Result(b) = "FAIL")
    /\ (Result(b) = "OK") => \A k \in 1..Len(b.mark) : b.mark[k] = " "
    /\ (\A k \in 1..Len(vars2) : Calls[prog[k]][vars2[k]].op.op # "ifloat") =>
         LET free == Plain2([k \in 1..Len(vars2) |-> Calls[prog[k]][vars2[k]].op]).out IN
         (* a difference pending at the end shows on a line of its own *)
         b.out = free \/ (b.out = Append(free, "") /\ b.mark[Len(b.mark)] = "?")

=============================================================================
