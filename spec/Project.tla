------------------------------ MODULE Project ------------------------------
(***************************************************************************)
(* A project as a user sees it: test files, configuration layers and the   *)
(* books directory; and what an invocation of the command line interface   *)
(* finds, names, shows and deletes.                                        *)
(*                                                                         *)
(* A test file is [dir, file, members]; a member is a record with kind k:  *)
(*   fn    a module level function name        id  who it is               *)
(*   cls   a test book class that needs no arguments: home (dir and file   *)
(*         of its module), cname, path (explicit path or ""), part         *)
(*         (explicit last part of the name or ""), methods [n, id] in      *)
(*         definition order                                                *)
(*   inst  a test book instance: as cls                                    *)
(*   suite a suite of cases [n, id] under path ("" for none)               *)
(*   drop  a suite whose names lost the prefix: path, then cases           *)
(***************************************************************************)
EXTENDS Names, Config

EndsWith(s, e) == Len(e) <= Len(s) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Chop(s, n)     == SubSeq(s, 1, Len(s) - n)
Drop(s, n)     == SubSeq(s, n + 1, Len(s))

(* ---------------- names ---------------- *)
RECURSIVE Snake(_, _)
Snake(s, small) ==
  IF s = "" THEN ""
  ELSE LET c == At(s, 1) IN
       (IF small /\ IsUpper(c) THEN "_" ELSE "") \o LowerChar(c) \o Snake(Drop(s, 1), ~IsUpper(c))

Affixes == <<"_testbook", "testbook", "_test_book", "test_book", "_book", "book", "_test", "test">>
RECURSIVE CleanBy(_, _)
CleanBy(s, k) ==
  IF k > Len(Affixes) THEN s
  ELSE IF EndsWith(s, Affixes[k]) THEN Chop(s, Len(Affixes[k]))
  ELSE CleanBy(s, k + 1)
Clean(s) == CleanBy(Lower(s), 1)
ClassPart(s) == Clean(Snake(s, FALSE))

RECURSIVE Flat(_)
Flat(s) == IF s = "" THEN "" ELSE (IF At(s, 1) = "_" THEN "" ELSE At(s, 1)) \o Flat(Drop(s, 1))

Stem(file) == Chop(file, 3)
FilePath(d, file) == d \o "/" \o Clean(Stem(file))
(* the class part is left out, when it repeats the file *)
ClassPath(m) ==
  LET c == ClassPart(m.cname)
      p == FilePath(m.home[1], m.home[2])
  IN IF Flat(Clean(Stem(m.home[2]))) = Flat(c) THEN p ELSE p \o "/" \o c
RECURSIVE Parent(_)
Parent(s) == IF At(s, Len(s)) = "/" THEN Chop(s, 1) ELSE Parent(Chop(s, 1))
BookPath(m) ==
  IF m.path # "" THEN m.path
  ELSE IF m.part # "" THEN Parent(ClassPath(m)) \o "/" \o m.part
  ELSE ClassPath(m)

IsTest(n)  == Prefix(n, "test_")
Bare(n)    == Drop(n, 5)
IsTestFile(f) == EndsWith(f, "_test.py") \/ EndsWith(f, "_book.py") \/ EndsWith(f, "_suite.py")
                 \/ (Prefix(f, "test_") /\ EndsWith(f, ".py"))

(* the cases of a member: sequence of [n, id] *)
Under(p, cs) == [k \in 1..Len(cs) |-> [n |-> IF p = "" THEN cs[k].n ELSE p \o "/" \o cs[k].n, id |-> cs[k].id]]
Methods(m)   == LET ts == SelectSeq(m.methods, LAMBDA x : IsTest(x.n))
                IN [k \in 1..Len(ts) |-> [n |-> Bare(ts[k].n), id |-> ts[k].id]]
MemberCases(f, m) ==
  CASE m.k = "fn"    -> IF IsTest(m.name) THEN <<[n |-> FilePath(f.dir, f.file) \o "/" \o Bare(m.name), id |-> m.id]>> ELSE <<>>
    [] m.k \in {"cls", "inst"} -> Under(BookPath(m), Methods(m))
    [] m.k = "suite" -> Under(m.path, m.cases)
    [] m.k = "drop"  -> LET keep == SelectSeq(m.cases, LAMBDA c : Prefix(c.n, m.path \o "/"))
                        IN [k \in 1..Len(keep) |-> [n |-> Drop(keep[k].n, Len(m.path) + 1), id |-> keep[k].id]]
    [] OTHER         -> <<>>

Under1(d, p) == d = p \/ Prefix(d, p \o "/")
FilesOf(P, paths) == {k \in 1..Len(P.files) :
                        IsTestFile(P.files[k].file) /\ \E j \in 1..Len(paths) : Under1(P.files[k].dir, paths[j])}
CaseSet(P, paths) ==
  UNION {UNION {{[n |-> c.n, id |-> c.id, f |-> k, m |-> j] : c \in Range(MemberCases(P.files[k], P.files[k].members[j]))}
                : j \in 1..Len(P.files[k].members)} : k \in FilesOf(P, paths)}
CaseNames(cs) == {c.n : c \in cs}
Ids(cs, n) == {c.id : c \in {x \in cs : x.n = n}}

(* a listing of names keeps the definition order of the methods of every book *)
Position(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x /\ \A h \in 1..k-1 : q[h] # x
BookOrder(P, paths, list) ==
  \A k \in FilesOf(P, paths) : \A j \in 1..Len(P.files[k].members) :
    P.files[k].members[j].k \in {"cls", "inst", "suite"} =>
      LET cs == MemberCases(P.files[k], P.files[k].members[j]) IN
      \A a, b \in 1..Len(cs) : (a < b /\ IsIn(cs[a].n, list) /\ IsIn(cs[b].n, list) /\ cs[a].n # cs[b].n)
                               => Position(list, cs[a].n) < Position(list, cs[b].n)

(* ---------------- garbage ---------------- *)
Garbage(files, names) ==
  {f \in files : f # "index.md" /\ ~ \E n \in names : f = n \o ".md" \/ Prefix(f, n \o "/")}

(* ---------------- configuration ---------------- *)
SetupKeys == <<"diff_tool", "fast_diff_tool", "md_viewer", "log_viewer", "test_paths", "default_tests", "books_path">>
SetupDefault == [diff_tool |-> "meld", fast_diff_tool |-> "diff", md_viewer |-> "retext --preview", log_viewer |-> "less",
                 test_paths |-> "test,book,run", default_tests |-> "test,book", books_path |-> "books"]
(* the values --setup stores: what the user typed, or else the present value *)
SetupLines(cfg, answers) ==
  [k \in 1..Len(SetupKeys) |->
     SetupKeys[k] \o "=" \o (IF answers[k] # "" THEN answers[k] ELSE Lookup(cfg, SetupKeys[k], SetupDefault[SetupKeys[k]]))]

TestPaths(cfg) == Split(Lookup(cfg, "test_paths", "test,book,run"), "")
Default(cfg)   == Split(Lookup(cfg, "default_tests", "test,book"), "")
BooksPath(cfg) == Lookup(cfg, "books_path", "books")

(* ---------------- brackets ---------------- *)
(* state of the processes: pid -> "open" when set up; e: [e, pid] with e in setup, test, teardown, end *)
Pids(evs) == {evs[k].pid : k \in 1..Len(evs)}
RECURSIVE OpenAt(_, _, _)
OpenAt(evs, pid, k) ==   (* is the setup of pid in force before event k? *)
  IF k = 1 THEN FALSE
  ELSE IF evs[k-1].pid = pid /\ evs[k-1].e = "setup" THEN TRUE
  ELSE IF evs[k-1].pid = pid /\ evs[k-1].e = "teardown" THEN FALSE
  ELSE OpenAt(evs, pid, k - 1)
=============================================================================
