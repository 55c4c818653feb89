---------------------------- MODULE CommandLine -----------------------------
(***************************************************************************)
(* What ferryctl asks the daemon for, given the words of its command line; *)
(* and what it shows of the daemon's answers.                              *)
(*                                                                         *)
(* An invocation is [path, rest, tree]: the words that choose the   *)
(* command, those that follow, and what is in the directory it is started  *)
(* in, which only import looks at: a sequence of nodes                     *)
(*   [name, kind, parent, to]     kind "file", "dir", "link", "dangling"   *)
(* whose parent is an earlier node (0: the directory itself), and a link's *)
(* target one that is a file or a directory of files. A word "#k" of an    *)
(* import stands for the path of the k-th node, however that is spelled    *)
(* ("#0": the directory itself).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

At(s, i) == SubSeq(s, i, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Digit == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
Range(s) == {s[k] : k \in DOMAIN s}

NONE == [op |-> "none"]

(* Numbers: decimal, perhaps with a sign, of 32 bits. Those that are not positive are of no use. *)
RECURSIVE Strip(_)
Strip(s) == IF Starts(s, "0") THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE Value(_)
Value(s) == IF s = "" THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + Digit[At(s, Len(s))]
RECURSIVE AtMost(_, _)
AtMost(a, b) == \/ a = ""
                \/ Digit[At(a, 1)] < Digit[At(b, 1)]
                \/ At(a, 1) = At(b, 1) /\ AtMost(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
MAXIMUM == "2147483647"
Positive(s) ==     \* 0 if it is not
  LET d == IF Starts(s, "+") THEN SubSeq(s, 2, Len(s)) ELSE s
      z == Strip(d)
  IN IF d = "" \/ \E i \in 1..Len(d) : At(d, i) \notin DOMAIN Digit THEN 0
     ELSE IF Len(z) > Len(MAXIMUM) \/ (Len(z) = Len(MAXIMUM) /\ ~AtMost(z, MAXIMUM)) THEN 0
     ELSE Value(z)

(* Flags *)
Flags(path) == CASE path = <<"clone">> -> <<"-f", "--full">>
                 [] path = <<"copy", "source">> -> <<"-x", "--skip-index">>
                 [] path = <<"status">> -> <<"-a", "--all">>
                 [] OTHER -> <<>>
\* ok, arguments, whether the flag is set
RECURSIVE Words(_, _)
Words(path, rest) ==
  LET fs == Flags(path)
      With(f) == {f} \cup {f \o "=" \o v : v \in {"true", "1", "t", "T", "TRUE", "True"}}
      Without(f) == {f \o "=" \o v : v \in {"false", "0", "f", "F", "FALSE", "False"}}
      On == UNION {With(f) : f \in Range(fs)}
      Off == UNION {Without(f) : f \in Range(fs)}
  IN IF rest = <<>> THEN [ok |-> TRUE, args |-> <<>>, last |-> 0]
     ELSE LET w == Head(rest) IN
          IF w = "--" THEN [ok |-> TRUE, args |-> Tail(rest), last |-> 0]
          ELSE LET r == Words(path, Tail(rest)) IN
               IF w \in On \cup Off THEN [r EXCEPT !.last = IF @ # 0 THEN @ ELSE IF w \in On THEN 1 ELSE -1]
               ELSE IF Starts(w, "-") /\ w # "-" THEN [r EXCEPT !.ok = FALSE]
               ELSE [r EXCEPT !.args = <<w>> \o @]

(* The packages below a node. Deltas are none, nor is anything that is not named like a package. *)
Package(name) == Ends(name, "x86_64.eopkg")
RECURSIVE PathTo(_, _)
PathTo(tree, k) == IF tree[k].parent = 0 THEN tree[k].name ELSE PathTo(tree, tree[k].parent) \o "/" \o tree[k].name
RECURSIVE Below(_, _, _)
Below(tree, k, path) ==
  LET n == tree[k]
      kids == {j \in 1..Len(tree) : tree[j].parent = k}
      within(t) == UNION {Below(tree, j, path \o "/" \o tree[j].name) : j \in {j \in 1..Len(tree) : tree[j].parent = t}}
  IN CASE n.kind = "file" -> IF Package(n.name) THEN {path} ELSE {}
       [] n.kind = "dir"  -> UNION {Below(tree, j, path \o "/" \o tree[j].name) : j \in kids}
       [] n.kind = "link" -> IF tree[n.to].kind = "file" THEN (IF Package(n.name) THEN {path} ELSE {}) ELSE within(n.to)
       [] OTHER -> {}
RECURSIVE Readable(_, _)
Readable(tree, k) == /\ tree[k].kind # "dangling"
                     /\ tree[k].kind = "dir" => \A j \in 1..Len(tree) : tree[j].parent = k => Readable(tree, j)
                     /\ tree[k].kind = "link" => Readable(tree, tree[k].to)

\* "#0" is the directory itself
ROOT == "#0"
NodeOf(tree, w) == IF Starts(w, "#") /\ Len(w) = 2 /\ At(w, 2) \in DOMAIN Digit /\ Digit[At(w, 2)] \in 1..Len(tree) THEN Digit[At(w, 2)] ELSE 0

Top(tree) == {j \in 1..Len(tree) : tree[j].parent = 0}
Found(tree, w) == IF w = ROOT THEN \A j \in Top(tree) : Readable(tree, j) ELSE NodeOf(tree, w) # 0 /\ Readable(tree, NodeOf(tree, w))
Packages(tree, w) == IF w = ROOT THEN UNION {Below(tree, j, tree[j].name) : j \in Top(tree)} ELSE LET m == NodeOf(tree, w) IN Below(tree, m, PathTo(tree, m))

(* What is asked for *)
Asked(i) ==
  LET w == Words(i.path, i.rest)
      a == w.args
      n == Len(a)
      set == w.last = 1
      One(op) == IF n = 1 THEN [op |-> op, repo |-> a[1]] ELSE NONE
      p == i.path
  IN IF ~w.ok THEN NONE
     ELSE CASE p = <<"create-repo">> -> One("create")
            [] p = <<"remove", "repo">> -> One("delete")
            [] p = <<"delta">> -> One("deltarepo")
            [] p = <<"index">> -> One("index")
            [] p = <<"trim", "obsolete">> -> One("trimobs")
            [] p = <<"clone">> -> IF n = 2 THEN [op |-> "clone", repo |-> a[1], target |-> a[2], full |-> set] ELSE NONE
            [] p = <<"pull">> -> IF n = 2 THEN [op |-> "pull", repo |-> a[1], target |-> a[2]] ELSE NONE
            [] p = <<"trim", "packages">> -> IF n = 2 /\ Positive(a[2]) > 0 THEN [op |-> "trim", repo |-> a[1], keep |-> Positive(a[2])] ELSE NONE
            [] p = <<"remove", "source">> ->
                 IF n = 2 THEN [op |-> "remove", repo |-> a[1], source |-> a[2], rel |-> -1]
                 ELSE IF n = 3 /\ Positive(a[3]) > 0 THEN [op |-> "remove", repo |-> a[1], source |-> a[2], rel |-> Positive(a[3])] ELSE NONE
            [] p = <<"copy", "source">> ->
                 IF n = 3 THEN [op |-> "copy", repo |-> a[1], target |-> a[2], source |-> a[3], rel |-> -1, skip |-> set]
                 ELSE IF n = 4 /\ Positive(a[4]) > 0 THEN [op |-> "copy", repo |-> a[1], target |-> a[2], source |-> a[3], rel |-> Positive(a[4]), skip |-> set] ELSE NONE
            [] p = <<"import">> ->
                 IF n >= 2 /\ \A k \in 2..n : Found(i.tree, a[k]) THEN [op |-> "import", repo |-> a[1], groups |-> [k \in 1..(n - 1) |-> Packages(i.tree, a[k + 1])]] ELSE NONE
            [] OTHER -> NONE

(* Those that are answered at once *)
Here(i) == /\ Words(i.path, i.rest).ok
           /\ Words(i.path, i.rest).args = <<>>
           /\ i.path \in {<<"list", "repos">>, <<"list", "pool">>, <<"status">>, <<"reset", "completed">>, <<"reset", "failed">>}
All(i) == Words(i.path, i.rest).last = 1

\* The daemon takes no such names
Fits(name) == name \notin {"", ".", ".."} /\ \A k \in 1..Len(name) : At(name, k) # "/"
InPath(o) == IF o.op = "pull" THEN o.target ELSE o.repo

(* What is shown of the jobs, given in the order in which they were queued *)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
First(s, all) == IF all \/ Len(s) <= 10 THEN s ELSE SubSeq(s, 1, 10)
ShownCurrent(js, all) == First(js, all)
ShownPast(js, all) == First(Rev(js), all)
=============================================================================
