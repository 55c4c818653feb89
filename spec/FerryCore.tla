----------------------------- MODULE FerryCore -----------------------------
(***************************************************************************)
(* The repositories, the shared pool and the index of ferryd, as a         *)
(* functional transition system: every request is an operator that maps a  *)
(* state to the set of its allowed results [ok |-> BOOLEAN, st |-> state]. *)
(* The same operators are                                                  *)
(*   - explored exhaustively over a small universe     (FerryCoreMC)       *)
(*   - simulated, to generate behaviours for replay    (FerryCoreSim)      *)
(*   - evaluated on states recorded from the real code (FerryTrace).       *)
(*                                                                         *)
(* u, the universe of a run (what exists outside of ferryd):               *)
(*   u.files  : file id -> [kind, id, name, src, srcl, rel, ver, dist,     *)
(*              arch, sha]                package files that can be added  *)
(*   u.bysha  : content -> [meta, files, broken] what is inside of a package*)
(*   u.dist   : content -> [bad, obs, tok]    distribution files           *)
(*   u.comps, u.groups : content -> [bad, tok]                             *)
(* Contents are tokens; the content of the (one correct) delta d is        *)
(* "delta:d", and the size of the content c is the token "size:c".         *)
(*                                                                         *)
(* s, the state:                                                           *)
(*   s.repos  : repository name -> [ents, files, assets, idx]              *)
(*     ents   : package name -> [avail : set of ids, pub : id, deltas]     *)
(*     files  : location -> content       package files in the repository  *)
(*     assets : file name -> content      distribution, components, groups *)
(*     idx    : NoIdx or the published index                               *)
(*   s.pool   : id -> pool entry (reference count and metadata)            *)
(*   s.pfiles : location -> content       files in the pool                *)
(*   s.skips  : deltas known to be pointless                               *)
(*   s.left   : what is on disk without belonging to any repository        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]

NoIdx == [none |-> TRUE]
EmptyFun == [x \in {} |-> x]
DIST == "distribution.xml"
COMP == "components.xml"
GRPS == "groups.xml"

(* --------------------------- names and places -------------------------- *)

HasSuffix(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x

\* The companion rule: foo-dbginfo goes with foo
BaseName(n) == IF HasSuffix(n, "-dbginfo") THEN SubSeq(n, 1, Len(n) - 8) ELSE n

\* Where packages of a source live, by the lower case source name
SourceDir(l) == IF Len(l) > 3 /\ SubSeq(l, 1, 3) = "lib"
                THEN SubSeq(l, 1, 4) \o "/" \o l
                ELSE SubSeq(l, 1, 1) \o "/" \o l

Uri(p) == SourceDir(p.srcl) \o "/" \o p.id

DeltaName(o, n) == n.name \o "-" \o ToString(o.rel) \o "-" \o ToString(n.rel)
                   \o "-" \o n.dist \o "-" \o n.arch \o ".delta.eopkg"

DeltaSha(id) == "delta:" \o id
SizeOf(c) == "size:" \o c

(* ------------------------------ results -------------------------------- *)

Ok(st)   == {[ok |-> TRUE,  st |-> st]}
Fail(st) == {[ok |-> FALSE, st |-> st]}
Then(R, F(_)) == UNION {IF r.ok THEN F(r.st) ELSE {r} : r \in R}

\* Do F for each element of seq, stopping at the first failure
FoldOk(R, seq, F(_, _)) ==
  FoldLeft(LAMBDA Q, x : Then(Q, LAMBDA st : F(st, x)), R, seq)

(* ------------------------------ the pool ------------------------------- *)

NewEntry(p, uri) ==
  [ref |-> 1, name |-> p.name, src |-> p.src, srcl |-> p.srcl, rel |-> p.rel, ver |-> p.ver,
   dist |-> p.dist, arch |-> p.arch, sha |-> p.sha, size |-> SizeOf(p.sha),
   uri |-> uri, from |-> "", to |-> "", frel |-> 0, trel |-> 0]

PoolAdd(s, p) ==
  IF p.id \in DOMAIN s.pool
  THEN [s EXCEPT !.pool[p.id].ref = @ + 1]
  ELSE [s EXCEPT !.pool   = Upd(@, p.id, NewEntry(p, Uri(p))),
                 !.pfiles = Upd(@, Uri(p), p.sha)]

PoolRef(s, id) == [s EXCEPT !.pool[id].ref = @ + 1]

PoolUnref(s, id) ==
  IF s.pool[id].ref > 1
  THEN [s EXCEPT !.pool[id].ref = @ - 1]
  ELSE [s EXCEPT !.pool = Del(@, id), !.pfiles = Del(@, s.pool[id].uri)]

(* --------------------------- repository entries ------------------------ *)

Exists(s, r) == r \in DOMAIN s.repos
HasName(s, r, n) == n \in DOMAIN s.repos[r].ents
Ent(s, r, n) == s.repos[r].ents[n]
Avail(s, r, n) == IF HasName(s, r, n) THEN Ent(s, r, n).avail ELSE {}
AllAvail(s, r) == UNION {Ent(s, r, n).avail : n \in DOMAIN s.repos[r].ents}
AllDeltas(s, r) == UNION {Ent(s, r, n).deltas : n \in DOMAIN s.repos[r].ents}
Newest(s, ids) == {i \in ids : \A j \in ids : s.pool[j].rel <= s.pool[i].rel}

\* The entry of package name n once id, of release rel, is held as well: it is
\* published if, and only if, that is strictly newer than what is published
EntWith(s, r, n, id, rel) ==
  IF ~HasName(s, r, n) THEN [avail |-> {id}, pub |-> id, deltas |-> {}]
  ELSE LET e == Ent(s, r, n)
       IN [e EXCEPT !.avail = @ \cup {id},
                    !.pub = IF rel > s.pool[@].rel THEN id ELSE @]

Hold(s, r, id) ==      \* put the pooled package id into repository r
  LET p == s.pool[id]
  IN [s EXCEPT !.repos[r].ents  = Upd(@, p.name, EntWith(s, r, p.name, id, p.rel)),
               !.repos[r].files = Upd(@, p.uri, s.pfiles[p.uri])]

RefPackage(s, r, id) ==
  IF id \in Avail(s, r, s.pool[id].name) THEN s ELSE Hold(PoolRef(s, id), r, id)

AddFile(s, r, p) ==
  IF p.id \in Avail(s, r, p.name) THEN s ELSE Hold(PoolAdd(s, p), r, p.id)

DropFile(s, r, id) ==
  PoolUnref([s EXCEPT !.repos[r].files = Del(@, s.pool[id].uri)], id)

\* Everything that has to go when package id leaves repository r. Any newest
\* remaining package may take over.
Unref(s, r, id) ==
  LET n    == s.pool[id].name
      e    == Ent(s, r, n)
      dead == {d \in e.deltas : s.pool[d].from = id \/ s.pool[d].to = id}
      s1   == FoldSet(LAMBDA d, st : DropFile(st, r, d), DropFile(s, r, id), dead)
      rest == e.avail \ {id}
  IN IF rest = {} THEN {[s1 EXCEPT !.repos[r].ents = Del(@, n)]}
     ELSE {[s1 EXCEPT !.repos[r].ents[n] =
              [avail |-> rest, pub |-> q, deltas |-> e.deltas \ dead]]
           : q \in Newest(s, rest)}

RECURSIVE UnrefAll(_, _, _)
UnrefAll(S, r, ids) ==
  IF ids = {} THEN S
  ELSE LET id == CHOOSE i \in ids : TRUE
       IN UnrefAll(UNION {Unref(st, r, id) : st \in S}, r, ids \ {id})

RefAll(s, r, ids) == FoldSet(LAMBDA i, st : RefPackage(st, r, i), s, ids)

\* As above, when several releases of a name are inserted in an unspecified
\* order: any of the newest ones may end up published
RefAllAny(s, r, ids) ==
  LET s1   == RefAll(s, r, ids)
      \* names whose published package is decided by this very insertion
      tied == {n \in DOMAIN s1.repos[r].ents :
                 /\ Cardinality(Newest(s1, Ent(s1, r, n).avail) \cap ids) > 1
                 /\ \/ ~HasName(s, r, n)
                    \/ Ent(s1, r, n).pub # Ent(s, r, n).pub}
      pick == {f \in [tied -> UNION {Ent(s1, r, n).avail : n \in tied}] :
                 \A n \in tied : f[n] \in Newest(s1, Ent(s1, r, n).avail) \cap ids}
  IN {[s1 EXCEPT !.repos[r].ents = [n \in DOMAIN @ |->
         IF n \in tied THEN [@[n] EXCEPT !.pub = f[n]] ELSE @[n]]] : f \in pick}

(* ------------------------------- the index ----------------------------- *)

Asset(s, r, f) == s.repos[r].assets[f]
HasAsset(s, r, f) == f \in DOMAIN s.repos[r].assets
DistOf(u, s, r) == u.dist[Asset(s, r, DIST)]
Obsoletes(u, s, r) == IF HasAsset(s, r, DIST) THEN DistOf(u, s, r).obs ELSE {}
IsObsolete(u, s, r, n) == n \in Obsoletes(u, s, r) \/ BaseName(n) \in Obsoletes(u, s, r)

AssetsBad(u, s, r) ==
  \/ HasAsset(s, r, DIST) /\ DistOf(u, s, r).bad
  \/ HasAsset(s, r, COMP) /\ u.comps[Asset(s, r, COMP)].bad
  \/ HasAsset(s, r, GRPS) /\ u.groups[Asset(s, r, GRPS)].bad

IdxEntry(u, s, r, n) ==
  LET e == Ent(s, r, n)
      p == s.pool[e.pub]
  IN [id |-> e.pub, sha |-> p.sha, size |-> p.size, uri |-> p.uri,
      meta |-> IF p.sha \in DOMAIN u.bysha THEN u.bysha[p.sha].meta ELSE "?",
      deltas |-> {[frel |-> s.pool[d].frel, sha |-> s.pool[d].sha,
                   size |-> s.pool[d].size, uri |-> s.pool[d].uri]
                  : d \in {x \in e.deltas : s.pool[x].trel = p.rel}}]

IdxOf(u, s, r) ==
  [ents  |-> {IdxEntry(u, s, r, n) : n \in {m \in DOMAIN s.repos[r].ents : ~IsObsolete(u, s, r, m)}},
   dist  |-> IF HasAsset(s, r, DIST) THEN DistOf(u, s, r).tok ELSE "",
   comps |-> IF HasAsset(s, r, COMP) THEN u.comps[Asset(s, r, COMP)].tok ELSE "",
   groups|-> IF HasAsset(s, r, GRPS) THEN u.groups[Asset(s, r, GRPS)].tok ELSE ""]

Reindex(u, s, r) ==
  IF AssetsBad(u, s, r) THEN Fail(s)
  ELSE Ok([s EXCEPT !.repos[r].idx = IdxOf(u, s, r)])

(* ------------------------------- requests ------------------------------ *)

EmptyRepo == [ents |-> EmptyFun, files |-> EmptyFun, assets |-> EmptyFun, idx |-> NoIdx]

ValidName(a) == a # "" /\ a # "." /\ a # ".."
                /\ \A i \in 1..Len(a) : SubSeq(a, i, i) # "/"

CreateBare(s, r) ==
  IF Exists(s, r) \/ ~ValidName(r) \/ "repo/" \o r \in s.left THEN Fail(s)
  ELSE Ok([s EXCEPT !.repos = Upd(@, r, EmptyRepo)])

Create(u, s, r) == Then(CreateBare(s, r), LAMBDA st : Reindex(u, st, r))

Delete(s, r) ==
  IF ~Exists(s, r) THEN Fail(s)
  ELSE LET s1 == FoldSet(LAMBDA i, st : DropFile(st, r, i), s, AllAvail(s, r) \cup AllDeltas(s, r))
       IN Ok([s1 EXCEPT !.repos = Del(@, r)])

\* One package file, as part of an import (anything goes) or an upload
\* (strict: only what is newer than what the repository publishes)
AddOne(u, s, r, f, strict) ==
  IF f \notin DOMAIN u.files THEN Fail(s)
  ELSE LET p == u.files[f]
  IN IF p.kind # "pkg" THEN Fail(s)
  ELSE IF strict /\ HasName(s, r, p.name) /\ s.pool[Ent(s, r, p.name).pub].rel >= p.rel
  THEN Fail(s)
  ELSE Ok(AddFile(s, r, p))

AddMany(u, s, r, fs, strict) ==
  IF ~Exists(s, r) THEN Fail(s)
  ELSE Then(FoldOk(Ok(s), fs, LAMBDA st, f : AddOne(u, st, r, f, strict)),
            LAMBDA st : Reindex(u, st, r))

Import(u, s, r, fs) == IF fs = <<>> THEN Fail(s) ELSE AddMany(u, s, r, fs, FALSE)

\* What is handed over is a file, or a symbolic link to one. An upload takes only
\* what really is in the upload directory: no links that lead out of it, no FIFOs,
\* and nothing that somebody is still writing to.
Plain(x) == "form" \notin DOMAIN x \/ x.form \in {"file", "link"}
Unreadable == {"missing", "dir", "fifo"}

\* m: [valid, target, form, files : sequence of [f, sum, suffix, local, there, form]]
ManifestOk(u, m) ==
  /\ m.valid /\ m.files # <<>> /\ Plain(m)
  /\ \A i \in 1..Len(m.files) : LET x == m.files[i]
       IN x.suffix /\ x.local /\ x.there /\ x.sum /\ Plain(x)
          /\ x.f \in DOMAIN u.files /\ u.files[x.f].kind \notin Unreadable

\* An empty file has a checksum, but may as well be refused for being empty
Upload(u, s, m) ==
  IF ~ManifestOk(u, m) THEN Fail(s)
  ELSE AddMany(u, s, m.target, [i \in 1..Len(m.files) |-> m.files[i].f], TRUE)
       \cup (IF \E i \in 1..Len(m.files) : u.files[m.files[i].f].kind = "empty" THEN Fail(s) ELSE {})

PullAssets(s, from, to) ==
  [s EXCEPT !.repos[to].assets = [f \in DOMAIN @ \cup DOMAIN s.repos[from].assets |->
     IF f \in DOMAIN s.repos[from].assets THEN s.repos[from].assets[f] ELSE @[f]]]

Tips(s, r) == {Ent(s, r, n).pub : n \in DOMAIN s.repos[r].ents}

RefDeltas(s, r, ds) ==
  FoldSet(LAMBDA d, st : IF d \in Ent(st, r, st.pool[d].name).deltas THEN st
            ELSE LET s1 == PoolRef(st, d) IN
                 [s1 EXCEPT !.repos[r].ents[s1.pool[d].name].deltas = @ \cup {d},
                            !.repos[r].files = Upd(@, s1.pool[d].uri, s1.pfiles[s1.pool[d].uri])],
          s, ds)

Clone(u, s, src, dst, full) ==
  IF ~Exists(s, src) THEN Fail(s)
  ELSE Then(CreateBare(s, dst), LAMBDA st :
         LET s1 == PullAssets(st, src, dst)
             R  == IF full
                   THEN {RefDeltas(x, dst, AllDeltas(s, src)) : x \in RefAllAny(s1, dst, AllAvail(s, src))}
                   ELSE {RefAll(s1, dst, Tips(s, src))}
         IN UNION {Reindex(u, x, dst) : x \in R})

\* What a pull from src would bring into dst
Newer(s, src, dst) ==
  {Ent(s, src, n).pub : n \in {m \in DOMAIN s.repos[src].ents :
     \/ ~HasName(s, dst, m)
     \/ s.pool[Ent(s, src, m).pub].rel > s.pool[Ent(s, dst, m).pub].rel}}

Regresses(s, src, dst) ==
  \E n \in DOMAIN s.repos[src].ents :
     HasName(s, dst, n) /\ s.pool[Ent(s, src, n).pub].rel < s.pool[Ent(s, dst, n).pub].rel

Pull(u, s, src, dst) ==
  IF ~Exists(s, src) \/ ~Exists(s, dst) THEN Fail(s)
  ELSE LET s1 == PullAssets(s, src, dst)
       IN IF Regresses(s, src, dst) THEN Fail(s1)
          ELSE Reindex(u, RefAll(s1, dst, Newer(s, src, dst)), dst)

Matching(s, r, src, rel) ==
  {i \in AllAvail(s, r) : s.pool[i].src = src /\ (rel > 0 => s.pool[i].rel = rel)}

CopySource(u, s, from, to, src, rel, skip) ==
  IF ~Exists(s, from) \/ ~Exists(s, to) THEN Fail(s)
  ELSE LET ids == Matching(s, from, src, rel)
       IN IF ids = {} THEN Fail(s)
          ELSE UNION {IF skip THEN Ok(x) ELSE Reindex(u, x, to) : x \in RefAllAny(s, to, ids)}

RemoveSource(u, s, r, src, rel) ==
  IF ~Exists(s, r) THEN Fail(s)
  ELSE LET ids == Matching(s, r, src, rel)
       IN IF ids = {} THEN Fail(s)
          ELSE UNION {Reindex(u, x, r) : x \in UnrefAll({s}, r, ids)}

\* The sets of packages of one name that trimming to keep may remove: all but
\* the newest ones, and but the published one, which is among those unless
\* others are of the same release
TrimSets(s, r, n, keep) ==
  LET e == Ent(s, r, n)
      over == Cardinality(e.avail) - keep
  IN IF over <= 0 THEN {{}}
     ELSE {x \ {e.pub} : x \in {y \in kSubset(over, e.avail) :
             \A i \in y : \A j \in e.avail \ y : s.pool[i].rel <= s.pool[j].rel}}

RECURSIVE TrimNames(_, _, _, _, _)
TrimNames(S, s0, r, names, keep) ==
  IF names = {} THEN S
  ELSE LET n == CHOOSE x \in names : TRUE
       IN TrimNames(UNION {UNION {UnrefAll({st}, r, d) : d \in TrimSets(s0, r, n, keep)} : st \in S},
                    s0, r, names \ {n}, keep)

Trim(u, s, r, keep) ==
  IF ~Exists(s, r) \/ keep < 1 THEN Fail(s)
  ELSE UNION {Reindex(u, x, r) : x \in TrimNames({s}, s, r, DOMAIN s.repos[r].ents, keep)}

TrimObsolete(u, s, r) ==
  IF ~Exists(s, r) THEN Fail(s)
  ELSE IF ~HasAsset(s, r, DIST) THEN Fail(s)
  ELSE IF DistOf(u, s, r).bad THEN Fail(s)
  ELSE LET ids == {i \in AllAvail(s, r) : IsObsolete(u, s, r, s.pool[i].name)}
       IN UNION {Reindex(u, x, r) : x \in UnrefAll({s}, r, ids)}

Index(u, s, r) == IF ~Exists(s, r) THEN Fail(s) ELSE Reindex(u, s, r)

(* ------------------------------- deltas -------------------------------- *)

Contents(u, s, id) == u.bysha[s.pool[id].sha].files       \* path -> hash ("" for directories)

\* What of the new package is not in the old one, by content
DeltaPaths(old, new) ==
  {p \in DOMAIN new : new[p] = "" \/ new[p] \notin {old[q] : q \in DOMAIN old}}

Pointless(old, new) == DeltaPaths(old, new) = DOMAIN new

\* A package can be taken in whose list of files is missing, or whose archive of
\* them is damaged: a delta that needs what is damaged cannot be made
NoFiles(u, o, n) == "files" \in {u.bysha[o.sha].broken, u.bysha[n.sha].broken}
NoArchive(u, o, n) ==
  u.bysha[n.sha].broken = "archive" /\ DeltaPaths(u.bysha[o.sha].files, u.bysha[n.sha].files) # {}

DeltaPossible(o, n) == o.rel < n.rel /\ o.name = n.name /\ o.dist = n.dist /\ o.arch = n.arch

DeltaEntry(id, o, n, from, to) ==
  [ref |-> 1, name |-> n.name, src |-> n.src, srcl |-> n.srcl, rel |-> n.rel, ver |-> n.ver,
   dist |-> n.dist, arch |-> n.arch, sha |-> DeltaSha(id), size |-> SizeOf(DeltaSha(id)),
   uri |-> SourceDir(n.srcl) \o "/" \o id, from |-> from, to |-> to, frel |-> o.rel, trel |-> n.rel]

HoldDelta(s, r, d, n) ==
  [s EXCEPT !.repos[r].ents[n].deltas = @ \cup {d},
            !.repos[r].files = Upd(@, s.pool[d].uri, s.pfiles[s.pool[d].uri])]

\* The delta from old to tip, which repository r both holds
DeltaOne(u, s, r, n, old, tip) ==
  LET o == s.pool[old]
      t == s.pool[tip]
      d == DeltaName(o, t)
  IN IF d \in s.skips \/ d \in Ent(s, r, n).deltas THEN Ok(s)
     ELSE IF d \in DOMAIN s.pool      \* some repository has one of that name
     THEN IF s.pool[d].from \in Avail(s, r, n) /\ s.pool[d].to \in Avail(s, r, n)
          THEN Ok(HoldDelta(PoolRef(s, d), r, d, n))
          ELSE Ok(s)
     ELSE IF ~DeltaPossible(o, t) THEN Ok(s)
     ELSE IF NoFiles(u, o, t) THEN Fail(s)
     ELSE IF Pointless(Contents(u, s, old), Contents(u, s, tip))
     THEN Ok([s EXCEPT !.skips = @ \cup {d}])
     ELSE IF NoArchive(u, o, t) THEN Fail(s)
     ELSE LET s1 == [s EXCEPT !.pool   = Upd(@, d, DeltaEntry(d, o, t, old, tip)),
                              !.pfiles = Upd(@, SourceDir(t.srcl) \o "/" \o d, DeltaSha(d))]
          IN Ok(HoldDelta(s1, r, d, n))

\* Sequences that list ids by release; tied ones in any order
RECURSIVE ByRelease(_, _)
ByRelease(s, ids) ==
  IF ids = {} THEN {<<>>}
  ELSE UNION {{Append(q, i) : q \in ByRelease(s, ids \ {i})} : i \in Newest(s, ids)}

NewDeltas(s, t) == (DOMAIN t.pool) \ DOMAIN s.pool

DeltaJob(u, s, r, n, index) ==
  IF ~Exists(s, r) THEN Fail(s)
  ELSE IF ~HasName(s, r, n) THEN Fail(s)
  ELSE IF Cardinality(Avail(s, r, n)) < 2 THEN Ok(s)
  ELSE UNION {Then(FoldOk(Ok(s), SubSeq(q, 1, Len(q) - 1),
                          LAMBDA st, old : DeltaOne(u, st, r, n, old, q[Len(q)])),
                   LAMBDA st : IF index /\ NewDeltas(s, st) # {} THEN Reindex(u, st, r) ELSE Ok(st))
              : q \in ByRelease(s, Avail(s, r, n))}

(* Producing a delta takes long, and other requests go on meanwhile: at the *)
(* end of it the packages may be gone, or somebody may have the delta       *)
(* already. Produce makes the file, and Include, later, adds it.            *)
Produce(u, s, o) ==
  LET r == o.repo  n == o.name IN
  IF ~Exists(s, r) \/ ~HasName(s, r, n) THEN Fail(s)
  ELSE IF ~({o.from, o.to} \subseteq Avail(s, r, n)) THEN Fail(s)
  ELSE LET a == s.pool[o.from]  b == s.pool[o.to] IN
       IF /\ DeltaPossible(a, b) /\ ~NoFiles(u, a, b) /\ ~NoArchive(u, a, b)
          /\ ~Pointless(Contents(u, s, o.from), Contents(u, s, o.to))
       THEN Ok(s) ELSE Fail(s)

Include(u, s, o) ==
  LET r == o.repo  n == o.name  d == o.d IN
  IF ~o.staged \/ ~Exists(s, r) \/ ~HasName(s, r, n) THEN Fail(s)
  ELSE IF d \in Ent(s, r, n).deltas THEN Ok(s)
  ELSE IF d \in DOMAIN s.pool
  THEN IF {s.pool[d].from, s.pool[d].to} \subseteq Avail(s, r, n) THEN Ok(HoldDelta(PoolRef(s, d), r, d, n)) ELSE Fail(s)
  ELSE IF ~({o.from, o.to} \subseteq Avail(s, r, n)) THEN Fail(s)
  ELSE LET a == s.pool[o.from]  b == s.pool[o.to]
           s1 == [s EXCEPT !.pool   = Upd(@, d, DeltaEntry(d, a, b, o.from, o.to)),
                           !.pfiles = Upd(@, SourceDir(b.srcl) \o "/" \o d, DeltaSha(d))]
       IN Ok(HoldDelta(s1, r, d, n))

(* ---------------------- the environment's own moves -------------------- *)

SetAssets(s, r, a) ==      \* an operator replaces the repository's asset files
  IF ~Exists(s, r) THEN Fail(s) ELSE Ok([s EXCEPT !.repos[r].assets = a])

(* --------------------------- one step, by record ----------------------- *)

Step(u, s, o) ==
  CASE o.op = "create"    -> Create(u, s, o.repo)
    [] o.op = "delete"    -> Delete(s, o.repo)
    [] o.op = "import"    -> Import(u, s, o.repo, o.files)
    [] o.op = "upload"    -> Upload(u, s, o.man)
    [] o.op = "clone"     -> Clone(u, s, o.repo, o.target, o.full)
    [] o.op = "pull"      -> Pull(u, s, o.repo, o.target)
    [] o.op = "copy"      -> CopySource(u, s, o.repo, o.target, o.source, o.rel, o.skip)
    [] o.op = "remove"    -> RemoveSource(u, s, o.repo, o.source, o.rel)
    [] o.op = "trim"      -> Trim(u, s, o.repo, o.keep)
    [] o.op = "trimobs"   -> TrimObsolete(u, s, o.repo)
    [] o.op = "index"     -> Index(u, s, o.repo)
    [] o.op = "delta"     -> DeltaJob(u, s, o.repo, o.name, o.index)
    [] o.op = "produce"   -> Produce(u, s, o)
    [] o.op = "include"   -> Include(u, s, o)
    [] o.op = "assets"    -> SetAssets(s, o.repo, o.assets)
    [] o.op = "mess"      -> Ok([s EXCEPT !.left = @ \cup {"repo/" \o o.repo}])
    [] o.op = "restart"   -> Ok(s)
    [] OTHER              -> {}

\* The repository that a step may change ("" if none)
Target(o) ==
  CASE o.op \in {"clone", "pull", "copy"} -> o.target
    [] o.op = "upload" -> o.man.target
    [] o.op \in {"restart", "mess"} -> ""
    [] OTHER -> o.repo

Init0 == [repos |-> EmptyFun, pool |-> EmptyFun, pfiles |-> EmptyFun, skips |-> {}, left |-> {}]

(***************************************************************************)
(* The properties, as predicates on one state or on one step. They are     *)
(* written independently of the operators above, so that checking the      *)
(* operators against them exhaustively means something, and so that they   *)
(* can be evaluated on recorded states on their own.                       *)
(***************************************************************************)

Holders(s, id) == {r \in DOMAIN s.repos : id \in AllAvail(s, r) \cup AllDeltas(s, r)}

\* C01
RefCounts(s) ==
  /\ \A id \in DOMAIN s.pool : s.pool[id].ref = Cardinality(Holders(s, id)) /\ s.pool[id].ref > 0
  /\ \A r \in DOMAIN s.repos : AllAvail(s, r) \cup AllDeltas(s, r) \subseteq DOMAIN s.pool
PoolFiles(s) == DOMAIN s.pfiles = {s.pool[id].uri : id \in DOMAIN s.pool}

\* C02
FilesIntact(s) ==
  \A r \in DOMAIN s.repos :
    \A id \in (AllAvail(s, r) \cup AllDeltas(s, r)) \cap DOMAIN s.pool :
      LET p == s.pool[id] IN
        /\ p.uri \in DOMAIN s.repos[r].files /\ s.repos[r].files[p.uri] = p.sha
        /\ p.uri \in DOMAIN s.pfiles /\ s.pfiles[p.uri] = p.sha
FilesExact(s) ==
  \A r \in DOMAIN s.repos :
    DOMAIN s.repos[r].files \subseteq
      {s.pool[id].uri : id \in (AllAvail(s, r) \cup AllDeltas(s, r)) \cap DOMAIN s.pool}

\* C03
Published(s) ==
  \A r \in DOMAIN s.repos : \A n \in DOMAIN s.repos[r].ents :
    LET e == Ent(s, r, n) IN
      /\ e.avail # {}
      /\ e.pub \in e.avail
      /\ \A i \in e.avail : i \in DOMAIN s.pool /\ e.pub \in DOMAIN s.pool
                            /\ s.pool[i].rel <= s.pool[e.pub].rel /\ s.pool[i].name = n

\* C17
DeltasJoin(s) ==
  \A r \in DOMAIN s.repos : \A n \in DOMAIN s.repos[r].ents :
    \A d \in Ent(s, r, n).deltas :
      /\ d \in DOMAIN s.pool
      /\ s.pool[d].from \in Ent(s, r, n).avail
      /\ s.pool[d].to \in Ent(s, r, n).avail
      /\ s.pool[d].from \in DOMAIN s.pool => s.pool[d].frel = s.pool[s.pool[d].from].rel
      /\ s.pool[d].to \in DOMAIN s.pool => s.pool[d].trel = s.pool[s.pool[d].to].rel
      /\ s.pool[d].frel < s.pool[d].trel

\* C06: nothing but the target changes
OthersSame(s, t, o) ==
  \A r \in (DOMAIN s.repos \cup DOMAIN t.repos) \ {Target(o)} :
    /\ r \in DOMAIN s.repos /\ r \in DOMAIN t.repos
    /\ s.repos[r] = t.repos[r]

StateInv(s) == RefCounts(s) /\ PoolFiles(s) /\ FilesIntact(s) /\ FilesExact(s)
               /\ Published(s) /\ DeltasJoin(s)
=============================================================================
