------------------------------- MODULE BooksMC -------------------------------
(***************************************************************************)
(* The books directory over the life of a project: cases come and go,      *)
(* other files turn up, runs accept results, and somebody cleans up.       *)
(* Checked for all histories of up to Depth steps; the histories and the   *)
(* files they must end with are replayed on the real command line.         *)
(***************************************************************************)
EXTENDS Project, Json
CONSTANTS Depth, Emit

U    == {"test/first/m1", "test/first/m1x", "test/second/m2"}
Junk == {"notes.md", "test/first/m1.md.bak", "test/first/m1x/att.png", "test/second/m2.txt"}
Sels == <<<<"*">>, <<"test/first">>, <<"test/first/m1">>>>

VARIABLES defined, files, h, cleaned
vars == <<defined, files, h, cleaned>>
Do(a) == h' = Append(h, a)
Snapshots == {f \in files : \E n \in U : f = n \o ".md"}

Init == defined = U /\ files = {} /\ h = <<>> /\ cleaned = FALSE
Add(n)    == n \notin defined /\ defined' = defined \cup {n} /\ files' = files /\ cleaned' = FALSE /\ Do(<<"add", n>>)
Remove(n) == n \in defined /\ Cardinality(defined) > 1 /\ defined' = defined \ {n} /\ files' = files /\ cleaned' = FALSE
             /\ Do(<<"remove", n>>)
Drop_(f)  == f \notin files /\ files' = files \cup {f} /\ UNCHANGED defined /\ cleaned' = FALSE /\ Do(<<"junk", f>>)
Chosen(k) == {n \in defined : Selects(Sels[k], n)}
(* acceptance replaces a snapshot and the attachments with those of the run: none *)
Accept(k) == /\ Chosen(k) # {}
             /\ files' = ({f \in files : ~ \E n \in Chosen(k) : n \o ".md" \notin files /\ Prefix(f, n \o "/")}
                         \cup {n \o ".md" : n \in Chosen(k)} \cup {"index.md"})
             /\ UNCHANGED defined /\ cleaned' = FALSE /\ Do(<<"accept", ToString(k)>>)
Try(k)    == Chosen(k) # {} /\ files' = files \cup {"index.md"} /\ UNCHANGED defined /\ cleaned' = FALSE /\ Do(<<"try", ToString(k)>>)
Clean_    == files # {} /\ files' = files \ Garbage(files, defined) /\ UNCHANGED defined /\ cleaned' = TRUE /\ Do(<<"clean", "">>)

Next == /\ Len(h) < Depth
        /\ \/ \E n \in U : Add(n) \/ Remove(n)
           \/ \E f \in Junk : Drop_(f)
           \/ \E k \in 1..Len(Sels) : Accept(k) \/ Try(k)
           \/ Clean_
Spec == Init /\ [][Next]_vars

(* cleaning leaves no garbage, takes no snapshot of a case, and a second time changes nothing *)
NothingLeft == cleaned => Garbage(files, defined) = {}
Survive == [][\A n \in defined : n \o ".md" \in files => n \o ".md" \in files']_vars
OnlyGarbageGoes == [][\A f \in files \ files' : f \in Garbage(files, defined)
                                               \/ \E n \in defined : Prefix(f, n \o "/")]_vars
AttachmentsStay == [][cleaned' => \A f \in files : (\E n \in defined : Prefix(f, n \o "/")) => f \in files']_vars
Done == Emit /\ Len(h) = Depth => PrintT("@V " \o ToJson([h |-> h, files |-> files, defined |-> defined]))
==============================================================================
