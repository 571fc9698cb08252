------------------------------ MODULE ConfigMC ------------------------------
(***************************************************************************)
(* Every way two settings can be spread over the layers, and sequences of  *)
(* invocations with options in one process.  Declaratively: a setting has  *)
(* the value of the highest layer that has it, whatever was asked before.  *)
(***************************************************************************)
EXTENDS Config, FiniteSets, Json
CONSTANTS Depth, Emit
K == {"verbose", "md_viewer"}
None == "-"
V == {None, "0", "1", "a=b"}
Opts == {<<>>, <<<<"verbose", "True">>>>, <<<<"md_viewer", "vi">>>>}

VARIABLES home, proj, env, asked, shown
vars == <<home, proj, env, asked, shown>>
Ls(f) == LET two == <<"verbose", "md_viewer">>
             has == SelectSeq(two, LAMBDA k : f[k] # None)
         IN [i \in 1..Len(has) |-> has[i] \o "=" \o f[has[i]]]
Es(f) == LET two == <<"verbose", "md_viewer">>
             has == SelectSeq(two, LAMBDA k : f[k] # None)
         IN [i \in 1..Len(has) |-> <<IF has[i] = "verbose" THEN "BOOKTEST_VERBOSE" ELSE "BOOKTEST_MD_VIEWER", f[has[i]]>>]
Y == [home |-> Ls(home), proj |-> Ls(proj), env |-> Es(env)]

Init == /\ home \in [K -> V \ {"0"}] /\ proj \in [K -> V \ {"1"}] /\ env \in [K -> V]
        /\ asked = <<>> /\ shown = <<>>
Invoke(o) == asked' = Append(asked, o) /\ shown' = Append(shown, Pairs(o, Layered(Y))) /\ UNCHANGED <<home, proj, env>>
Next == Len(asked) < Depth /\ \E o \in Opts : Invoke(o)
Spec == Init /\ [][Next]_vars

Given(o, k) == \E i \in 1..Len(o) : o[i][1] = k
Expected(o, k) ==
  IF Given(o, k) THEN o[CHOOSE i \in 1..Len(o) : o[i][1] = k][2]
  ELSE IF env[k] # None THEN Value(env[k])
  ELSE IF proj[k] # None THEN Value(proj[k])
  ELSE IF home[k] # None THEN Value(home[k]) ELSE None
Highest == \A i \in 1..Len(asked) : \A k \in K :
             IF Expected(asked[i], k) = None THEN k \notin DOMAIN shown[i]
             ELSE k \in DOMAIN shown[i] /\ shown[i][k] = Expected(asked[i], k)
(* the same question has the same answer *)
Alone == \A i, j \in 1..Len(asked) : asked[i] = asked[j] => shown[i] = shown[j]
Done == Emit /\ Len(asked) = Depth => PrintT("@V " \o ToJson([home |-> Y.home, proj |-> Y.proj, env |-> Y.env, asked |-> asked, shown |-> shown]))
=============================================================================
