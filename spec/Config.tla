------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Layered configuration.  Layers Y:                                       *)
(*   home, proj  lines of ~/.booktest and of the project's .booktest       *)
(*   env         environment variables as <<name, value>>                  *)
(* A later layer overrides an earlier one key by key; the command line of  *)
(* an invocation overrides them all, for this invocation only.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

At(s, k) == SubSeq(s, k, k)
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
IsUpper(c) == \E k \in 1..26 : At(UPPER, k) = c
LowerChar(c) == IF IsUpper(c) THEN At(LOWER, CHOOSE k \in 1..26 : At(UPPER, k) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerChar(At(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

Blank(c) == c = " " \/ c = "\t" \/ c = "\n"
RECURSIVE Strip(_)
Strip(s) == IF s = "" THEN ""
            ELSE IF Blank(At(s, 1)) THEN Strip(SubSeq(s, 2, Len(s)))
            ELSE IF Blank(At(s, Len(s))) THEN Strip(SubSeq(s, 1, Len(s) - 1))
            ELSE s
Equals(s) == IF \E k \in 1..Len(s) : At(s, k) = "="
             THEN CHOOSE k \in 1..Len(s) : At(s, k) = "=" /\ \A h \in 1..k-1 : At(s, h) # "="
             ELSE 0
Value(v) == IF v = "1" THEN "True" ELSE IF v = "0" THEN "False" ELSE v
Nothing == [x \in {} |-> ""]
Set(cfg, k, v) == (k :> v) @@ cfg

(* a file: comments and blank lines do not count, the value begins after the first "=" *)
RECURSIVE Lines(_, _)
Lines(ls, cfg) ==
  IF ls = <<>> THEN cfg
  ELSE LET l == Strip(Head(ls))
           e == Equals(l)
       IN IF l = "" \/ At(Head(ls), 1) = "#" \/ e = 0 THEN Lines(Tail(ls), cfg)
          ELSE Lines(Tail(ls), Set(cfg, SubSeq(l, 1, e - 1), Value(SubSeq(l, e + 1, Len(l)))))
PREFIX == "BOOKTEST_"
RECURSIVE Vars(_, _)
Vars(vs, cfg) ==
  IF vs = <<>> THEN cfg
  ELSE LET n == vs[1][1] IN
       IF Len(n) >= Len(PREFIX) /\ SubSeq(n, 1, Len(PREFIX)) = PREFIX
       THEN Vars(Tail(vs), Set(cfg, Lower(SubSeq(n, Len(PREFIX) + 1, Len(n))), Value(vs[1][2])))
       ELSE Vars(Tail(vs), cfg)
RECURSIVE Pairs(_, _)
Pairs(ps, cfg) == IF ps = <<>> THEN cfg ELSE Pairs(Tail(ps), Set(cfg, ps[1][1], ps[1][2]))

Layered(Y) == Vars(Y.env, Lines(Y.proj, Lines(Y.home, Nothing)))
Lookup(cfg, k, default) == IF k \in DOMAIN cfg THEN cfg[k] ELSE default
On(cfg, k) == Lookup(cfg, k, "False") \notin {"False", ""}

RECURSIVE Split(_, _)
Split(s, cur) ==
  IF s = "" THEN <<cur>>
  ELSE IF At(s, 1) = "," THEN <<cur>> \o Split(SubSeq(s, 2, Len(s)), "")
  ELSE Split(SubSeq(s, 2, Len(s)), cur \o At(s, 1))
=============================================================================
