------------------------------ MODULE SnapTrace ------------------------------
(***************************************************************************)
(* Validates recorded histories of runs of one test using snapshots.  Each *)
(* step is a run (its calls in the order in which they were made, the      *)
(* answers the test saw, and the answers the real target gave during the   *)
(* run), a review, or a probe, which is a run whose test catches every     *)
(* exception.  Answers are unique strings.                                 *)
(***************************************************************************)
EXTENDS Snap, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
Missing == "!"
Range(x) == {x[i] : i \in 1..Len(x)}

VARIABLES tid, step, store, out, given, bad, log
vars == <<tid, step, store, out, given, bad, log>>
Tr == Traces[tid]
O == Tr.o
Init == tid \in 1..Len(Traces) /\ step = 1 /\ store = {} /\ out = [has |-> FALSE, used |-> {}] /\ given = {} /\ bad = {} /\ log = <<>>

(* the answers the target gave in this run, with the key they were given for *)
Issued(r) == {<<Key(O, r.issued[i]), r.issued[i].ans>> : i \in 1..Len(r.issued)}
AllGiven(r) == given \cup Issued(r)
OfKey(all, key, a) == \E e \in all : e[1] = key /\ e[2] = a
OfOther(all, key, a) == \E e \in all : e[1] # key /\ e[2] = a

(* what is wrong with answer a for a call with the given verdict *)
Wrong(r, st, used, key, a, down) ==
  LET v == Verdict(O, r.fl, st, used, key)
      all == AllGiven(r)
      now == \E e \in Issued(r) : e[2] = a
      fresh == <<key, a>> \in Issued(r) /\ ~ \E e \in used : e[3] = a
  IN CASE v = "replay" /\ a = Replayed(O, r.fl, st, used, key) -> {}
       [] v = "real" /\ fresh -> {}
       (* the real target is out of order *)
       [] v = "real" /\ a = Missing /\ down -> {}
       [] v = "missing" /\ a = Missing -> {}
       [] a = "garbled" -> {"garbled"}
       [] v = "replay" /\ a = Missing -> {"lost"}
       [] v = "real" /\ a = Missing -> {"not-captured"}
       [] now /\ v # "real" -> IF Capture(r.fl) THEN {"recalled"} ELSE {"real-call"}
       [] OfOther(all, key, a) /\ ~OfKey(all, key, a) -> {"crossed"}
       [] v = "missing" -> {"kept"}
       [] v = "replay" -> IF \E n \in 1..20 : Has(st, key, n) /\ Ans(st, key, n) = a THEN {"order"} ELSE {"stale"}
       [] OTHER -> {"stale"}

(* plays the calls; a run without catching ends with its first missing answer *)
RECURSIVE Play(_, _, _, _, _)
Play(r, i, used, b, miss) ==
  IF i > Len(r.calls) THEN [used |-> used, bad |-> b, miss |-> miss, n |-> i - 1]
  ELSE LET c == r.calls[i]
           key == Key(O, c)
           w == Wrong(r, store, used, key, c.got, c.down)
           m == c.got = Missing
       IN IF c.got \in {Missing, "garbled"} THEN Play(r, i + 1, used, b \cup w, TRUE)
          ELSE Play(r, i + 1, Use(O, used, key, c.got), b \cup w, miss)
(* every real answer was asked for by a call, and every call asked once *)
IsDown(a) == Len(a) > 4 /\ SubSeq(a, 1, 4) = "down"
Unasked(r) == {e \in Issued(r) : ~ \E i \in 1..Len(r.calls) : r.calls[i].got = e[2]
                                     \/ (IsDown(e[2]) /\ r.calls[i].down /\ r.calls[i].got = Missing /\ Key(O, r.calls[i]) = e[1])}
Doubled(r) == Len(r.issued) # Cardinality(Issued(r))

(* environment: the names are looked up in order before the test; one missing name stops it *)
EnvKnown(r, nm) == Has(Avail(r.fl, store), <<nm, "">>, 1)
EnvExpect(r, c) == IF EnvKnown(r, c.f) THEN Ans(Avail(r.fl, store), <<c.f, "">>, 1) ELSE c.real
EnvPlay(r) ==
  LET miss == ~Capture(r.fl) /\ \E i \in 1..Len(r.calls) : ~EnvKnown(r, r.calls[i].f)
  IN [miss |-> miss,
      used |-> IF miss THEN {} ELSE {<<<<r.calls[i].f, "">>, 1, EnvExpect(r, r.calls[i])>> : i \in 1..Len(r.calls)},
      n |-> Len(r.calls),
      bad |-> UNION {LET c == r.calls[i] IN
                       IF miss THEN IF c.got = Missing THEN {} ELSE {"real-call"}
                       ELSE IF c.got = EnvExpect(r, c) THEN {}
                       ELSE IF c.got = Missing THEN IF Capture(r.fl) /\ ~EnvKnown(r, c.f) THEN {"not-captured"} ELSE {"lost"}
                       ELSE IF c.got = c.real THEN IF Capture(r.fl) THEN {"recalled"} ELSE {"real-call"}
                       ELSE {"stale"} : i \in 1..Len(r.calls)}]

Run ==
  /\ step <= Len(Tr.steps) /\ Tr.steps[step].op = "run"
  /\ LET r == Tr.steps[step]
         p == IF O.kind = "env" THEN EnvPlay(r) ELSE Play(r, 1, {}, {}, FALSE)
         acc == Accepts(r.fl, r.res) \/ r.frozen
         b == p.bad
           \cup (IF O.kind # "env" /\ Unasked(r) # {} THEN (IF Capture(r.fl) THEN {"recalled"} ELSE {"real-call"}) ELSE {})
           \cup (IF O.kind # "env" /\ Doubled(r) THEN {"asked-twice"} ELSE {})
           \cup (IF p.miss /\ ~r.catch /\ r.res # "FAIL" THEN {"missing-hidden"} ELSE {})
           \cup (IF ~p.miss /\ r.res = "FAIL" /\ ~r.fails THEN {"broken"} ELSE {})
           \cup (IF O.kind # "env" /\ ~p.miss /\ ~r.fails /\ Len(r.calls) # r.planned THEN {"broken"} ELSE {})
           \cup (IF r.leak # <<>> THEN {"leak"} ELSE {})
           \cup (IF r.bleak # <<>> THEN {"body-leak"} ELSE {})
     IN /\ bad' = bad \cup b
        /\ log' = IF b # {} THEN Append(log, [step |-> step, bad |-> b, store |-> store]) ELSE log
        /\ store' = IF acc THEN p.used ELSE store
        /\ out' = [has |-> ~acc, used |-> p.used]
        /\ given' = AllGiven(r)
  /\ step' = step + 1 /\ UNCHANGED tid
(* `-w` accepts what the last run left, when its flags say so *)
Review ==
  /\ step <= Len(Tr.steps) /\ Tr.steps[step].op = "review"
  /\ LET r == Tr.steps[step]
         acc == out.has /\ (Accepts(r.fl, r.res) \/ r.frozen)
     IN store' = (IF acc THEN out.used ELSE store) /\ out' = (IF acc THEN [out EXCEPT !.has = FALSE] ELSE out)
  /\ step' = step + 1 /\ UNCHANGED <<tid, given, bad, log>>
Finish ==
  /\ step = Len(Tr.steps) + 1
  /\ PrintT("@V " \o ToJson([id |-> Tr.id, bad |-> bad, log |-> log, store |-> store]))
  /\ step' = step + 1 /\ UNCHANGED <<tid, store, out, given, bad, log>>
Next == Run \/ Review \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
