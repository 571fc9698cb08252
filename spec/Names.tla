------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Hierarchical case names, selections and dependencies of a suite.        *)
(* A suite S is a record                                                   *)
(*   names  the cases in listing order                                     *)
(*   fn     case -> identity of its test function or method                *)
(*   inst   case -> test book instance the case is bound to ("" for none)  *)
(*   deps   case -> functions or methods it depends on, in declared order  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Prefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Range(q)     == {q[k] : k \in 1..Len(q)}
IsIn(x, q)   == \E k \in 1..Len(q) : q[k] = x

(* name equals path p or lies below it *)
Below(name, p) == p = "" \/ name = p \/ Prefix(name, p \o "/")
IsSkip(s) == Prefix(s, "skip:")
SkipOf(s) == SubSeq(s, 6, Len(s))
Selects(sel, name) ==
  /\ ~ \E k \in 1..Len(sel) : IsSkip(sel[k]) /\ Below(name, SkipOf(sel[k]))
  /\ \/ \A k \in 1..Len(sel) : IsSkip(sel[k])
     \/ \E k \in 1..Len(sel) : sel[k] = "*" \/ (~IsSkip(sel[k]) /\ Below(name, sel[k]))

(* the case that provides dependency f of case c: on the same instance, if it has it *)
RECURSIVE FirstCase(_, _, _, _)
FirstCase(S, f, inst, k) ==
  IF k > Len(S.names) THEN ""
  ELSE IF S.fn[S.names[k]] = f /\ (inst = "*" \/ S.inst[S.names[k]] = inst) THEN S.names[k]
  ELSE FirstCase(S, f, inst, k + 1)
Resolve(S, c, f) ==
  LET same == IF S.inst[c] = "" THEN "" ELSE FirstCase(S, f, S.inst[c], 1)
  IN IF same # "" THEN same ELSE FirstCase(S, f, "*", 1)

(* Known == cases whose result is stored; a dependency takes part when it is selected or not stored *)
RECURSIVE TakingPart(_, _, _, _, _)
TakingPart(S, c, sel, known, k) ==
  IF k > Len(S.deps[c]) THEN <<>>
  ELSE LET d == Resolve(S, c, S.deps[c][k])
       IN (IF d # "" /\ (Selects(sel, d) \/ d \notin known) THEN <<d>> ELSE <<>>)
          \o TakingPart(S, c, sel, known, k + 1)
RECURSIVE DepthFirst(_, _, _, _)
DepthFirst(S, ds, sel, known) ==
  IF ds = <<>> THEN <<>>
  ELSE DepthFirst(S, TakingPart(S, Head(ds), sel, known, 1), sel, known)
       \o <<Head(ds)>> \o DepthFirst(S, Tail(ds), sel, known)
RECURSIVE Unique(_, _)
Unique(q, seen) ==
  IF q = <<>> THEN <<>>
  ELSE IF Head(q) \in seen THEN Unique(Tail(q), seen)
  ELSE <<Head(q)>> \o Unique(Tail(q), seen \cup {Head(q)})
(* the cases of an invocation, in execution order *)
Cases(S, sel, known) ==
  Unique(DepthFirst(S, SelectSeq(S.names, LAMBDA c : Selects(sel, c)), sel, known), {})
=============================================================================
