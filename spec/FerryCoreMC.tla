---------------------------- MODULE FerryCoreMC ----------------------------
(***************************************************************************)
(* Every reachable state of FerryCore over a small universe, all requests  *)
(* enabled at any time, checked against the properties of FerryProps.      *)
(***************************************************************************)
EXTENDS FerryProps

CONSTANTS RepoNames,    \* repositories
          FileIds,      \* package files on offer, of those below
          Kinds,        \* requests to be explored
          DistIds       \* distribution files on offer, of those below

File(n, src, rel, v) ==
  [kind |-> "pkg", id |-> n \o "-" \o v, name |-> n, src |-> src, srcl |-> src, rel |-> rel, ver |-> v,
   dist |-> "1", arch |-> "x", sha |-> "c" \o n \o v]

AllFiles ==
  [a1 |-> File("a", "s", 1, "1"), a2 |-> File("a", "s", 2, "2"), a2b |-> File("a", "s", 2, "2b"),
   a3 |-> File("a", "s", 3, "3"), b1 |-> File("b", "s", 1, "1"), b2 |-> File("b", "z", 2, "2"),
   d1 |-> File("a-dbginfo", "s", 1, "1"),
   bad |-> [File("a", "s", 9, "9") EXCEPT !.kind = "trunc"]]

U == [files |-> [f \in FileIds |-> AllFiles[f]],
      bysha |-> [c \in {AllFiles[f].sha : f \in DOMAIN AllFiles} |->
                   [meta |-> c, broken |-> "",
                    \* to a-3, everything is new from a-1, so that a delta is pointless
                    files |-> CASE c = "ca1" -> [x |-> "1", y |-> "2"]
                                [] c = "ca2" -> [x |-> "1", y |-> "3"]
                                [] c = "ca3" -> [x |-> "9", y |-> "3"]
                                [] OTHER -> [x |-> c]]],
      dist |-> [d0 |-> [bad |-> FALSE, obs |-> {}, tok |-> "d0"],
                d1 |-> [bad |-> FALSE, obs |-> {"a"}, tok |-> "d1"],
                dx |-> [bad |-> TRUE, obs |-> {}, tok |-> "dx"]],
      comps |-> EmptyFun, groups |-> EmptyFun]

VARIABLE st

Seqs == {<<f>> : f \in FileIds} \cup {<<f, g>> : f, g \in FileIds}
Mf(f, sum) == [f |-> f, sum |-> sum, suffix |-> TRUE, local |-> TRUE, there |-> TRUE, name |-> f]
Sources == {AllFiles[f].src : f \in FileIds}
PkgNames == {AllFiles[f].name : f \in FileIds}
Rels == {0} \cup {AllFiles[f].rel : f \in FileIds}

OpsOf(k) ==
  CASE k \in {"create", "delete", "index", "trimobs"} -> {[op |-> k, repo |-> r] : r \in RepoNames}
    [] k = "mess" -> {[op |-> k, repo |-> r] : r \in RepoNames \ Repos(st)}
    [] k = "restart" -> {[op |-> k]}
    [] k = "import" -> {[op |-> k, repo |-> r, files |-> q] : r \in RepoNames, q \in Seqs}
    [] k = "upload" -> {[op |-> k, man |-> [valid |-> TRUE, target |-> r, name |-> "m",
                                             files |-> [i \in 1..Len(q) |-> Mf(q[i], b)]]]
                        : r \in RepoNames, q \in Seqs, b \in BOOLEAN}
    [] k = "clone" -> {[op |-> k, repo |-> r, target |-> t, full |-> b] : r, t \in RepoNames, b \in BOOLEAN}
    [] k = "pull" -> {[op |-> k, repo |-> r, target |-> t] : r, t \in RepoNames}
    [] k = "copy" -> {[op |-> k, repo |-> r, target |-> t, source |-> x, rel |-> n, skip |-> b]
                      : r, t \in RepoNames, x \in Sources, n \in Rels, b \in BOOLEAN}
    [] k = "remove" -> {[op |-> k, repo |-> r, source |-> x, rel |-> n] : r \in RepoNames, x \in Sources, n \in Rels}
    [] k = "trim" -> {[op |-> k, repo |-> r, keep |-> n] : r \in RepoNames, n \in 0..2}
    [] k = "delta" -> {[op |-> k, repo |-> r, name |-> n, index |-> b] : r \in RepoNames, n \in PkgNames, b \in BOOLEAN}
    \* produced at any time before
    [] k = "include" -> {[op |-> k, repo |-> r, name |-> AllFiles[f].name, from |-> AllFiles[f].id, to |-> AllFiles[g].id,
                          d |-> DeltaName(AllFiles[f], AllFiles[g]), staged |-> b]
                         : r \in RepoNames, f \in {x \in FileIds : AllFiles[x].kind = "pkg"}, g \in {x \in FileIds : AllFiles[x].kind = "pkg"}, b \in BOOLEAN}
    [] k = "assets" -> {[op |-> k, repo |-> r, assets |-> IF d = "" THEN EmptyFun ELSE [x \in {DIST} |-> d]]
                        : r \in Repos(st), d \in DistIds \cup {""}}

\* (of packages that a delta can be between)
Sensible(o) == o.op = "include" =>
  \E f, g \in FileIds : /\ AllFiles[f].id = o.from /\ AllFiles[g].id = o.to /\ DeltaPossible(AllFiles[f], AllFiles[g])
                         /\ ~Pointless(U.bysha[AllFiles[f].sha].files, U.bysha[AllFiles[g].sha].files)
Ops == {o \in UNION {OpsOf(k) : k \in Kinds} : Sensible(o)}

Init == st = Init0
Next == \E o \in Ops : \E r \in Step(U, st, o) : st' = r.st
Spec == Init /\ [][Next]_st

Inv == StateInv(st)
\* Every request that is possible in a reachable state has all of its results right
StepInv == \A o \in Ops : LET A == Step(U, st, o) IN
             /\ A # {}
             /\ \A r \in A : LET b == BrokenBy(U, st, o, r.ok, r.st)
                              IN (o.op \in Requests => b = {}) \/ (PrintT(<<"BROKEN", b, o, r.ok>>) /\ FALSE)
=============================================================================
