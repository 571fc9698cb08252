------------------------------ MODULE SectionMC ------------------------------
(***************************************************************************)
(* C03: documents made of sections.  Every document of at most K sections  *)
(* is accepted and then run again with its sections in every order, its    *)
(* trailing ignored lines grown or shrunk, and at most one section changed *)
(* (a tested line altered, a line added, or its heading renamed).          *)
(***************************************************************************)
EXTENDS Compare, Json, Integers
CONSTANTS K, Kinds, Emit
MCAlnum == {}
MCNumeric == {}

(* tested lines, then trailing ignored lines *)
Bodies == { <<<<>>, 0>>, <<<<"x">>, 0>>, <<<<"x", "y 1">>, 0>>, <<<<>>, 1>>, <<<<"x">>, 2>>, <<<<"same", "same">>, 1>> }
Title(k) == <<"one", "two", "three", "four">>[k]

Open(kind, title) ==
  CASE kind = "h1"   -> [op |-> "h", level |-> 1, x |-> title]
    [] kind = "h2"   -> [op |-> "h", level |-> 2, x |-> title]
    [] kind = "line" -> [op |-> "anchorln", x |-> title]
    [] kind = "key"  -> [op |-> "kv", x |-> title \o "=", v |-> "5"]
Lines(kind, x, n) == [k \in 1..n |-> [op |-> kind, x |-> x]]

(* the calls of a section: change 0 none, 1 renamed, 2 first tested line altered, 3 a tested line added;
   grow: number of ignored lines added or dropped *)
Section(kind, title, body, change, grow) ==
  LET tested == [k \in 1..Len(body[1]) |->
                   [op |-> "tln", x |-> IF change = 2 /\ k = 1 THEN "altered" ELSE body[1][k]]]
      added  == IF change = 3 THEN <<[op |-> "tln", x |-> "added"]>> ELSE <<>>
      ign    == Lines("iln", IF grow = 0 THEN "log" ELSE "other log", IF body[2] = 0 THEN 0 ELSE Max(1, body[2] + grow))
  IN <<Open(kind, IF change = 1 THEN "new " \o title ELSE title)>> \o tested \o added \o ign

VARIABLES kinds, bodies, perm, changed, change, grow, res, done
vars == <<kinds, bodies, perm, changed, change, grow, res, done>>

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
First(n) == Cat([k \in 1..n |-> Section(kinds[k], Title(k), bodies[k], 0, 0)])
Second(n) == Cat([k \in 1..n |-> Section(kinds[perm[k]], Title(perm[k]), bodies[perm[k]],
                                         IF perm[k] = changed THEN change ELSE 0, grow)])

Init == /\ \E n \in 1..K :
             /\ kinds \in [1..n -> Kinds] /\ bodies \in [1..n -> Bodies]
             /\ perm \in Perms(n) /\ changed \in 1..n
        /\ change \in 0..3 /\ grow \in {-1, 0, 1}
        /\ (change = 0 => changed = 1)
        /\ (change = 2 => bodies[changed][1] # <<>>)
        (* a line added behind ignored lines would replace ignored text *)
        /\ (change = 3 => bodies[changed][2] = 0)
        /\ res = [res |-> "", out |-> <<>>, mark |-> <<>>] /\ done = FALSE

Go == /\ ~done /\ done' = TRUE
      /\ LET n == Len(bodies)
             a == Run(FALSE, <<>>, First(n))
             b == Run(TRUE, a.out, Second(n))
         IN /\ res' = [res |-> Result(b), out |-> b.out, mark |-> b.mark]
            /\ (Emit => PrintT("@V " \o ToJson([ops |-> Second(n), snap |-> a.out, res |-> Result(b),
                                               out |-> b.out, mark |-> b.mark])))
      /\ UNCHANGED <<kinds, bodies, perm, changed, change, grow>>
Spec == Init /\ [][Go]_vars

SectionsFollow == (done /\ change = 0) => res.res = "OK"
ChangesShow    == (done /\ change # 0) => res.res = "DIFF"
=============================================================================
