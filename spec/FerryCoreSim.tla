---------------------------- MODULE FerryCoreSim ----------------------------
(***************************************************************************)
(* Generates behaviours of FerryCore, to be replayed on the real code:     *)
(* sequences of operations over the universe of package files, asset files *)
(* and names given, mixed as the profile says. Printed as JSON.            *)
(***************************************************************************)
EXTENDS FerryCore, Json, IOUtils

RawU  == JsonDeserialize(IOEnv.UNIVERSE)
DEPTH == RawU.profile.depth

Set(x) == {x[i] : i \in 1..Len(x)}
Map(f, F(_)) == [k \in DOMAIN f |-> F(f[k])]

U == [files  |-> RawU.files,
      bysha  |-> RawU.bysha,
      dist   |-> Map(RawU.dist, LAMBDA d : [d EXCEPT !.obs = Set(@)]),
      comps  |-> RawU.comps,
      groups |-> RawU.groups]

P == RawU.profile
VARIABLES st, hist

Pick(seq) == seq[RandomElement(1..Len(seq))]
Chance(k) == RandomElement(1..k) = 1

\* Mostly repositories that exist, sometimes any name
Repo(s) == IF DOMAIN s.repos = {} \/ Chance(10) THEN Pick(P.repos) ELSE RandomElement(DOMAIN s.repos)
\* Mostly ones that do not
NewRepo(s) == IF Set(P.repos) \subseteq DOMAIN s.repos \/ Chance(5) THEN Pick(P.repos)
              ELSE RandomElement(Set(P.repos) \ DOMAIN s.repos)

\* Mostly one that holds packages
Busy(s) == {r \in DOMAIN s.repos : DOMAIN s.repos[r].ents # {}}
Full(s) == IF Busy(s) = {} \/ Chance(8) THEN Repo(s) ELSE RandomElement(Busy(s))
\* Mostly one with a distribution file
Dists(s) == {r \in Busy(s) : DIST \in DOMAIN s.repos[r].assets}
WithDist(s) == IF Dists(s) = {} \/ Chance(5) THEN Full(s) ELSE RandomElement(Dists(s))

\* What to do next: it takes a repository and packages for most to be of interest
Kind(s) == IF DOMAIN s.repos = {} /\ ~Chance(6) THEN "create"
           ELSE IF Busy(s) = {} /\ Chance(2) THEN Pick(<<"import", "import", "upload">>)
           ELSE Pick(P.kinds)

RECURSIVE PickFiles(_)
PickFiles(n) == IF n = 0 THEN <<>>
  ELSE LET rest == PickFiles(n - 1)
           f == Pick(P.files)
       IN IF \E k \in 1..Len(rest) : U.files[rest[k]].id = U.files[f].id THEN rest ELSE Append(rest, f)

Many == Pick(<<1, 1, 2, 2, 3, 4>>)

ManFile(f) ==
  LET broken == Chance(15)
      how == RandomElement(1..4)
      form == IF Chance(14) THEN Pick(<<"link", "link", "outside", "fifo", "shrinks">>) ELSE "file"
  IN [f |-> f, form |-> form, sum |-> ~(broken /\ how = 1) /\ form # "shrinks", suffix |-> ~(broken /\ how = 2),
      local |-> ~(broken /\ how = 3), there |-> ~(broken /\ how = 4), name |-> U.files[f].id]

\* Files that an upload may bring forward
Fresh(s, r) == {f \in Set(P.files) : /\ f \in DOMAIN U.files /\ U.files[f].kind = "pkg"
                                    /\ (Exists(s, r) /\ HasName(s, r, U.files[f].name))
                                       => s.pool[Ent(s, r, U.files[f].name).pub].rel < U.files[f].rel}
RECURSIVE PickFresh(_, _, _)
PickFresh(s, r, n) ==
  LET rest == IF n <= 1 THEN <<>> ELSE PickFresh(s, r, n - 1)
      fs == {f \in Fresh(s, r) : \A k \in 1..Len(rest) : U.files[rest[k]].name # U.files[f].name}
  IN IF fs = {} THEN rest ELSE Append(rest, RandomElement(fs))
\* Some list a file twice, with sums that may differ
Twice(ms) == IF ms = <<>> \/ ~Chance(8) THEN ms
             ELSE LET k == RandomElement(1..Len(ms)) IN Append(ms, [ms[k] EXCEPT !.sum = ~Chance(2)])

\* Every second upload, roughly, is one that should be accepted
UpFiles(s, r) == IF ~Chance(3) THEN PickFresh(s, r, Many) ELSE PickFiles(Many)

Behind(s) == {r \in DOMAIN s.repos : Fresh(s, r) # {}}
UpTarget(s) == IF Behind(s) = {} \/ Chance(5) THEN Repo(s) ELSE RandomElement(Behind(s))

AssetChoice(seq) == IF Chance(4) THEN <<>> ELSE <<Pick(seq)>>

AssetSet(d, c, g) ==
  [f \in (IF d = <<>> THEN {} ELSE {DIST}) \cup (IF c = <<>> THEN {} ELSE {COMP}) \cup (IF g = <<>> THEN {} ELSE {GRPS})
   |-> IF f = DIST THEN d[1] ELSE IF f = COMP THEN c[1] ELSE g[1]]

Held(s, r) == IF r \in DOMAIN s.repos THEN AllAvail(s, r) ELSE {}
\* Sometimes a package of it, rather than the source
SourceOf(s, r) == IF Held(s, r) = {} \/ Chance(6) THEN Pick(P.sources)
                  ELSE IF Chance(8) THEN s.pool[RandomElement(Held(s, r))].name
                  ELSE s.pool[RandomElement(Held(s, r))].src
RelOf(s, r, src) ==
  LET rels == {s.pool[x].rel : x \in {y \in Held(s, r) : s.pool[y].src = src}}
  IN IF rels = {} \/ Chance(3) THEN Pick(<<-1, 0, 1, 2, 3>>) ELSE RandomElement(rels)
NameOf(s, r) ==
  IF r \notin DOMAIN s.repos THEN Pick(P.names)
  ELSE LET many == {n \in DOMAIN s.repos[r].ents : Cardinality(s.repos[r].ents[n].avail) > 1}
       IN IF many = {} \/ Chance(8) THEN Pick(P.names) ELSE RandomElement(many)

\* Mostly ones that can be produced
ProduceOp(s, r, n, x, y) == [op |-> "produce", repo |-> r, name |-> n, from |-> x, to |-> y, d |-> DeltaName(s.pool[x], s.pool[y]),
                             fs |-> s.pool[x].sha, ts |-> s.pool[y].sha]
Candidates(s) ==
  LET all == UNION {UNION {{ProduceOp(s, r, n, x, y) : x \in Avail(s, r, n), y \in Avail(s, r, n)} : n \in DOMAIN s.repos[r].ents} : r \in DOMAIN s.repos}
      good == {o \in all : \E q \in Produce(U, s, o) : q.ok}
      new == {o \in good : o.d \notin Ent(s, o.repo, o.name).deltas}
      pooled == {o \in new : o.d \in DOMAIN s.pool}
  IN IF good = {} \/ Chance(12) THEN all ELSE IF new = {} \/ Chance(8) THEN good
     ELSE IF pooled # {} /\ Chance(2) THEN pooled ELSE new

\* Deltas that have been produced, and of what is (again) what it was
Underway(s) == {hist[i] : i \in {j \in 1..Len(hist) :
  /\ hist[j].op = "produce"
  /\ \A k \in (j + 1)..Len(hist) : hist[k].op = "include" => hist[k].d # hist[j].d
  /\ hist[j].d \notin s.skips
  /\ hist[j].from \in DOMAIN s.pool => s.pool[hist[j].from].sha = hist[j].fs
  /\ hist[j].to \in DOMAIN s.pool => s.pool[hist[j].to].sha = hist[j].ts}}

\* Each of the random choices has to be bound by a quantifier, to be made once
Ops(s) ==
  {o \in UNION {CASE k = "create"  -> {[op |-> k, repo |-> NewRepo(s)]}
    [] k = "delete"  -> {[op |-> k, repo |-> Repo(s)]}
    [] k = "import"  -> {[op |-> k, repo |-> Repo(s), files |-> PickFiles(Many), form |-> IF Chance(8) THEN "link" ELSE "file"]}
    [] k = "upload"  -> UNION {{[op |-> k, man |-> [valid |-> ~Chance(15), form |-> IF Chance(25) THEN Pick(<<"link", "outside", "fifo">>) ELSE "file", variant |-> RandomElement(0..5), target |-> r,
                          name |-> "up" \o ToString(Len(hist)) \o ".tram",
                          files |-> IF Chance(25) THEN <<>> ELSE Twice(fm)]]
                          : fm \in {[x \in 1..Len(fs) |-> ManFile(fs[x])] : fs \in {UpFiles(s, r)}}} : r \in {UpTarget(s)}}
    [] k = "clone"   -> {[op |-> k, repo |-> Full(s), target |-> NewRepo(s), full |-> Chance(2)]}
    [] k = "pull"    -> {[op |-> k, repo |-> Full(s), target |-> Repo(s)]}
    [] k = "copy"    -> UNION {{[op |-> k, repo |-> r, target |-> Repo(s), source |-> x, rel |-> RelOf(s, r, x), skip |-> Chance(3)]
                          : x \in {SourceOf(s, r)}} : r \in {Full(s)}}
    [] k = "remove"  -> UNION {{[op |-> k, repo |-> r, source |-> x, rel |-> RelOf(s, r, x)]
                          : x \in {SourceOf(s, r)}} : r \in {Full(s)}}
    [] k = "trim"    -> {[op |-> k, repo |-> Full(s), keep |-> Pick(<<0, 1, 1, 2, 2, 3, -1>>)]}
    [] k = "trimobs" -> {[op |-> k, repo |-> WithDist(s)]}
    [] k = "index"   -> {[op |-> k, repo |-> Repo(s)]}
    [] k = "delta"   -> {[op |-> k, repo |-> r, name |-> NameOf(s, r), index |-> ~Chance(4)] : r \in {Full(s)}}
    [] k = "produce" -> LET c == Candidates(s) IN IF c = {} THEN {} ELSE {RandomElement(c)}
    [] k = "include" -> IF Underway(s) = {} THEN {} ELSE {[x EXCEPT !.op = k] : x \in {RandomElement(Underway(s))}}
    [] k = "assets"  -> {[op |-> k, repo |-> Full(s), assets |-> AssetSet(AssetChoice(P.dists), AssetChoice(P.comps), AssetChoice(P.groups))]}
    [] k = "mess"    -> {[op |-> k, repo |-> NewRepo(s)]}
    [] k = "restart" -> {[op |-> k]}
    : k \in {Kind(s)}} : TRUE}

\* Sensible choices only
Usable(s, o) ==
  /\ o.op = "import" => Len(o.files) > 0
  /\ o.op = "assets" => Exists(s, o.repo)
  /\ o.op = "produce" => o.from # o.to
  /\ o.op = "mess" => ~Exists(s, o.repo) /\ ValidName(o.repo)

Init == st = Init0 /\ hist = <<>>

Next ==
  /\ Len(hist) < DEPTH
  /\ \E os \in {Ops(st)} : \E o \in (IF os = {} THEN {[op |-> ""]} ELSE os) :
       IF o.op # "" /\ Usable(st, o)
       THEN \E r \in {RandomElement(Step(U, st, IF o.op = "include" THEN o @@ [staged |-> TRUE] ELSE o))} :
            /\ st' = r.st
            /\ hist' = Append(hist, o)
            /\ Len(hist') = DEPTH => PrintT("SCRIPT " \o ToJson(hist'))
       ELSE UNCHANGED <<st, hist>>

Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
