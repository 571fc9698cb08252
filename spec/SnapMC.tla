------------------------------- MODULE SnapMC -------------------------------
(***************************************************************************)
(* All histories of a few runs over two keys, with every flag and every    *)
(* script.  The real target answers a fresh number every time.             *)
(***************************************************************************)
EXTENDS Snap, Json
CONSTANTS Kind, MaxRuns, MaxCalls, Emit
Missing == -1
Keys == {"a", "b"}
Opt == [kind |-> Kind]
Scripts == UNION {[1..n -> Keys] : n \in 0..MaxCalls}
Flags == [s : BOOLEAN, S : BOOLEAN]

VARIABLES store, pc, fl, script, k, used, got, clock, old, prev, hist, asked
vars == <<store, pc, fl, script, k, used, got, clock, old, prev, hist, asked>>
Init == /\ store = {} /\ pc = "idle" /\ fl = [s |-> FALSE, S |-> FALSE] /\ script = <<>> /\ k = 1 /\ used = {}
        /\ got = <<>> /\ clock = 0 /\ old = {} /\ prev = [script |-> <<>>, got |-> <<>>, valid |-> FALSE] /\ hist = <<>> /\ asked = 0
Start == /\ pc = "idle" /\ Len(hist) < MaxRuns
         /\ \E f \in Flags, sc \in Scripts : fl' = f /\ script' = sc
         /\ pc' = "run" /\ k' = 1 /\ used' = {} /\ got' = <<>> /\ old' = store /\ asked' = 0
         /\ UNCHANGED <<store, clock, prev, hist>>
Call == /\ pc = "run" /\ k <= Len(script)
        /\ LET key == script[k]
               v == Verdict(Opt, fl, store, used, key)
               a == IF v = "replay" THEN Replayed(Opt, fl, store, used, key) ELSE IF v = "real" THEN clock ELSE Missing
           IN /\ got' = Append(got, a)
              /\ IF v = "missing" THEN pc' = "ended" /\ used' = used /\ clock' = clock /\ asked' = asked
                 ELSE /\ pc' = "run" /\ used' = Use(Opt, used, key, a)
                      /\ clock' = IF v = "real" THEN clock + 1 ELSE clock
                      /\ asked' = IF v = "real" THEN asked + 1 ELSE asked
        /\ k' = k + 1 /\ UNCHANGED <<store, fl, script, old, prev, hist>>
Done == pc = "run" /\ k > Len(script) /\ pc' = "ended" /\ UNCHANGED <<store, fl, script, k, used, got, clock, old, prev, hist, asked>>
End == /\ pc = "ended"
       /\ \E acc \in BOOLEAN :
            /\ store' = IF acc THEN used ELSE store
            /\ hist' = Append(hist, [fl |-> fl, script |-> script, acc |-> acc])
            /\ prev' = IF acc THEN [script |-> script, got |-> got, valid |-> TRUE]
                       ELSE IF prev.valid THEN prev ELSE [script |-> <<>>, got |-> <<>>, valid |-> FALSE]
       /\ pc' = "idle" /\ used' = {} /\ got' = <<>> /\ k' = 1 /\ script' = <<>>
       /\ fl' = [s |-> FALSE, S |-> FALSE] /\ old' = {} /\ asked' = 0
       /\ UNCHANGED clock
Stop == /\ pc = "idle" /\ Len(hist) = MaxRuns /\ Emit /\ PrintT("@V " \o ToJson([hist |-> hist]))
        /\ pc' = "emitted" /\ UNCHANGED <<store, fl, script, k, used, got, clock, old, prev, hist, asked>>
Next == Start \/ Call \/ Done \/ End \/ Stop
Spec == Init /\ [][Next]_vars
View == <<store, pc, fl, script, k, used, got, clock, old, prev, Len(hist), asked>>

(* C19: without capturing nothing real is asked *)
NeverReal == ~Capture(fl) => asked = 0
(* C20: an answer belongs to its own key and position *)
LastOf(x) == x[Len(x)]
OneAnswer == \A e, f \in store : (e[1] = f[1] /\ e[2] = f[2]) => e = f
NoSharing == \A e, f \in store : e[3] = f[3] => e = f
(* positions are dense: the store answers a prefix of the identical calls *)
Dense == \A e \in store : \A n \in 1..e[2] : Has(store, e[1], n)
(* C21: completing asks only for what has no answer and keeps what has; refreshing uses no old answer *)
Completes == (pc = "run" /\ fl.s /\ ~fl.S) => \A e \in used : Has(old, e[1], e[2]) => e \in old
Refreshes == (pc = "run" /\ fl.S) => used \cap old = {}
OnlyCaptured == (pc = "run" /\ ~Capture(fl)) => used \subseteq old
(* only what was used is kept: nothing of the store has a key the accepted script did not call *)
KeepsUsed == (pc = "idle" /\ prev.valid) => \A e \in store : \E i \in 1..Len(prev.script) : prev.script[i] = e[1]
(* replaying the accepted run needs nothing real and sees the same answers (functions: the last one of a call) *)
RECURSIVE Play(_, _, _, _)
Play(st, sc, i, us) ==
  IF i > Len(sc) THEN <<>>
  ELSE LET f == [s |-> FALSE, S |-> FALSE]
           v == Verdict(Opt, f, st, us, sc[i])
       IN IF v = "missing" THEN <<Missing>>
          ELSE LET a == Replayed(Opt, f, st, us, sc[i]) IN <<a>> \o Play(st, sc, i + 1, Use(Opt, us, sc[i], a))
LastAnswer(p, i) == p.got[CHOOSE j \in 1..Len(p.got) : p.script[j] = p.script[i] /\ p.got[j] # Missing
                             /\ \A l \in j + 1..Len(p.got) : p.script[l] = p.script[i] => p.got[l] = Missing]
Replays == (pc = "idle" /\ prev.valid) =>
  LET r == Play(store, prev.script, 1, {}) IN
  \A i \in 1..Len(prev.got) : prev.got[i] # Missing =>
     r[i] = IF Ordered(Opt) THEN prev.got[i] ELSE LastAnswer(prev, i)
=============================================================================
