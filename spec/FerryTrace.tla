----------------------------- MODULE FerryTrace ----------------------------
(***************************************************************************)
(* Checks recorded executions of the real code against FerryCore. Every    *)
(* line of the trace is an operation, whether it reported success, and the *)
(* complete state observed after it. Each recorded step must be one that   *)
(* FerryCore allows from the state observed before it, and each observed   *)
(* state must satisfy the properties. Checking resumes from what was       *)
(* observed, so that one run reports everything there is to report.        *)
(***************************************************************************)
EXTENDS FerryProps, Json, IOUtils

RawU  == JsonDeserialize(IOEnv.UNIVERSE)
Log == ndJsonDeserialize(IOEnv.TRACE)

Set(x) == {x[i] : i \in 1..Len(x)}
Map(f, F(_)) == [k \in DOMAIN f |-> F(f[k])]

U == [files  |-> RawU.files,
      bysha  |-> RawU.bysha,
      dist   |-> Map(RawU.dist, LAMBDA d : [d EXCEPT !.obs = Set(@)]),
      comps  |-> RawU.comps,
      groups |-> RawU.groups]

NormEnt(e) == [avail |-> Set(e.avail), pub |-> e.pub, deltas |-> Set(e.deltas)]
NormIdx(x) == IF "none" \in DOMAIN x THEN NoIdx
              ELSE [x EXCEPT !.ents = {[e EXCEPT !.deltas = Set(@)] : e \in Set(@)}]
NormRepo(r) == [r EXCEPT !.ents = Map(@, NormEnt), !.idx = NormIdx(@)]
Norm(s) == [repos |-> Map(s.repos, NormRepo), pool |-> s.pool, pfiles |-> s.pfiles,
            skips |-> Set(s.skips), left |-> Set(s.left)]

VARIABLES pos,    \* lines consumed
          st      \* the state observed after them

(* ------------------------- what a difference means --------------------- *)

OpProps(o) ==
  CASE o.op = "clone" -> {"C07"}
    [] o.op = "pull" -> {"C08"}
    [] o.op \in {"copy", "remove"} -> {"C09"}
    [] o.op = "trim" -> {"C10"}
    [] o.op = "trimobs" -> {"C11"}
    [] o.op = "upload" -> {"C12"}
    [] o.op \in {"delta", "produce", "include"} -> {"C17"}
    [] o.op \in {"create", "delete"} -> {"C24"}
    [] o.op = "restart" -> {"C18"}
    [] o.op = "index" -> {"C04"}
    [] OTHER -> {}

\* Does the operation involve malformed input?
Files(o) == IF o.op = "import" THEN Set(o.files)
            ELSE IF o.op = "upload" THEN {o.man.files[k].f : k \in 1..Len(o.man.files)} ELSE {}
Malformed(s, o) ==
  \/ \E f \in Files(o) : f \notin DOMAIN U.files \/ U.files[f].kind # "pkg"
  \/ o.op = "upload" /\ (~o.man.valid \/ ~Plain(o.man) \/ \E k \in 1..Len(o.man.files) : ~Plain(o.man.files[k]))
  \/ Target(o) \in DOMAIN s.repos /\ AssetsBad(U, s, Target(o))
  \/ /\ o.op \in {"delta", "produce"}
     /\ Exists(s, o.repo) /\ HasName(s, o.repo, o.name)
     /\ \E i \in Avail(s, o.repo, o.name) \cap DOMAIN s.pool :
          s.pool[i].sha \in DOMAIN U.bysha /\ U.bysha[s.pool[i].sha].broken # ""

RepoDiff(a, b) ==
  (IF DOMAIN a.ents # DOMAIN b.ents
      \/ \E n \in DOMAIN a.ents \cap DOMAIN b.ents : a.ents[n].avail # b.ents[n].avail THEN {"avail"} ELSE {})
  \cup (IF \E n \in DOMAIN a.ents \cap DOMAIN b.ents : a.ents[n].pub # b.ents[n].pub THEN {"published"} ELSE {})
  \cup (IF \E n \in DOMAIN a.ents \cap DOMAIN b.ents : a.ents[n].deltas # b.ents[n].deltas THEN {"deltas"} ELSE {})
  \cup (IF a.files # b.files THEN {"files"} ELSE {})
  \cup (IF a.assets # b.assets THEN {"assets"} ELSE {})
  \cup (IF a.idx # b.idx THEN {"index"} ELSE {})

Diff(a, b, o) ==
  (IF DOMAIN a.repos # DOMAIN b.repos THEN {"repositories"} ELSE {})
  \cup UNION {IF r = Target(o) THEN RepoDiff(a.repos[r], b.repos[r])
              ELSE IF a.repos[r] # b.repos[r] THEN {"other repositories"} ELSE {}
              : r \in DOMAIN a.repos \cap DOMAIN b.repos}
  \cup (IF DOMAIN a.pool # DOMAIN b.pool THEN {"pool"} ELSE {})
  \cup (IF \E p \in DOMAIN a.pool \cap DOMAIN b.pool : a.pool[p].ref # b.pool[p].ref THEN {"reference counts"} ELSE {})
  \cup (IF \E p \in DOMAIN a.pool \cap DOMAIN b.pool :
             [a.pool[p] EXCEPT !.ref = 0] # [b.pool[p] EXCEPT !.ref = 0] THEN {"pool entries"} ELSE {})
  \cup (IF a.pfiles # b.pfiles THEN {"pool files"} ELSE {})
  \cup (IF a.skips # b.skips THEN {"skips"} ELSE {})
  \cup (IF a.left # b.left THEN {"leftovers"} ELSE {})

DiffProps(d, o) ==
  CASE d = "repositories" -> {"C24", "C06"}
    [] d = "avail" -> {"C02"}
    [] d = "published" -> {"C03"}
    [] d = "deltas" -> {"C17"}
    [] d = "files" -> {"C02"}
    [] d = "assets" -> {"C06"}
    [] d = "index" -> {"C04"}
    [] d = "other repositories" -> {"C06"}
    [] d = "pool" -> {"C01"}
    [] d = "reference counts" -> {"C01"}
    [] d = "pool entries" -> {"C01"}
    [] d = "pool files" -> {"C01", "C02"}
    [] d = "skips" -> {"C17"}
    [] d = "leftovers" -> {"C24"} \cup (IF o.op = "delta" THEN {"C16", "C17"} ELSE {})
    [] OTHER -> {}

V(props, what) == {[prop |-> p, what |-> what] : p \in props}

\* The allowed outcome that is nearest to the observed one
Nearest(A, ok, t, o) ==
  LET cand == IF \E a \in A : a.ok = ok THEN {a \in A : a.ok = ok} ELSE A
      size(a) == Cardinality(Diff(a.st, t, o))
  IN CHOOSE a \in cand : \A b \in cand : size(a) <= size(b)

Conformance(s, o, ok, t) ==
  LET A == Step(U, s, o)
  IN IF [ok |-> ok, st |-> t] \in A THEN {}
     ELSE LET a  == Nearest(A, ok, t, o)
              ds == Diff(a.st, t, o)
              extra == OpProps(o) \cup (IF Malformed(s, o) THEN {"C22"} ELSE {})
          IN (IF a.ok # ok
              THEN V(extra \cup (IF o.op = "import" THEN {"C22"} ELSE {}),
                     o.op \o (IF ok THEN " succeeded but had to be refused" ELSE " failed but had to succeed"))
              ELSE {})
             \cup UNION {V(extra \cup DiffProps(d, o), d \o " not as they should be after " \o o.op) : d \in ds}

(* ---------------------- properties of single states -------------------- *)

StatePreds(s) ==
  [C01 |-> RefCounts(s) /\ PoolFiles(s),
   C02 |-> FilesIntact(s) /\ FilesExact(s),
   C03 |-> Published(s),
   C17 |-> DeltasJoin(s)]

Broken(s) == LET p == StatePreds(s) IN {k \in DOMAIN p : ~p[k]}

StateViolations(s, t) ==
  UNION {V({k}, "the state does not satisfy " \o k) : k \in Broken(t) \ Broken(s)}

(* Anomalies the recorder has seen by itself: files that do not parse,     *)
(* checksums that do not match, lists out of order                         *)
FlagViolations(l) == {[prop |-> f.prop, what |-> f.what] : f \in Set(l.flags)}

(* ------------------------- the upload directory ------------------------ *)

ListedNames(o) == {o.man.files[k].name : k \in 1..Len(o.man.files)} \cup {o.man.name}

Incoming(l) ==
  IF l.op.op # "upload" THEN {}
  ELSE LET want == IF l.ok THEN [k \in DOMAIN l.in0 \ ListedNames(l.op) |-> l.in0[k]] ELSE l.in0
       IN IF l.in1 = want THEN {}
          ELSE V({"C12"}, "the upload area is not as it should be after " \o
                          (IF l.ok THEN "an accepted" ELSE "a refused") \o " upload")

Isolation(s, o, t) ==
  IF OthersSame(s, t, o) THEN {}
  ELSE V({"C06"}, o.op \o " changed another repository")

\* Can the operators be applied to s? What leads to a state where they cannot
\* is reported; there is no telling what has to come of it.
Sane(s) ==
  /\ \A r \in DOMAIN s.repos :
       /\ \A n \in DOMAIN s.repos[r].ents :
            LET e == Ent(s, r, n) IN
            /\ e.avail \cup e.deltas \subseteq DOMAIN s.pool
            /\ e.pub \in e.avail
            /\ \A i \in e.avail \cup e.deltas : s.pool[i].name = n
            /\ \A d \in e.deltas : {s.pool[d].from, s.pool[d].to} \subseteq DOMAIN s.pool
            /\ \A i \in e.avail : s.pool[i].sha \in DOMAIN U.bysha
       /\ LET a == s.repos[r].assets IN
            /\ DIST \in DOMAIN a => a[DIST] \in DOMAIN U.dist
            /\ COMP \in DOMAIN a => a[COMP] \in DOMAIN U.comps
            /\ GRPS \in DOMAIN a => a[GRPS] \in DOMAIN U.groups
  /\ \A i \in DOMAIN s.pool : s.pool[i].ref > 0 /\ s.pool[i].uri \in DOMAIN s.pfiles

SaneAfter(s) == Sane(s) /\ \A r \in DOMAIN s.repos : \A i \in AllAvail(s, r) \cup AllDeltas(s, r) :
                  s.pool[i].uri \in DOMAIN s.repos[r].files

Direct(s, o, ok, t) ==
  IF ~SaneAfter(s) \/ ~SaneAfter(t) \/ o.op \notin Requests THEN {}
  ELSE {[prop |-> k, what |-> "after " \o o.op \o ", " \o k \o " does not hold"] : k \in BrokenBy(U, s, o, ok, t)}

StepViolations(s, l, t) ==
  (IF Sane(s) THEN Conformance(s, l.op, l.ok, t) ELSE {})
  \cup Direct(s, l.op, l.ok, t)
  \cup StateViolations(s, t) \cup FlagViolations(l)
  \cup Incoming(l) \cup Isolation(s, l.op, t)

Init == pos = 0 /\ st = Init0

Next ==
  /\ pos < Len(Log)
  /\ pos' = pos + 1
  /\ LET l == Log[pos + 1]
         t == Norm(l.st)
         vs == IF l.kind = "init" THEN StateViolations(Init0, t) \cup FlagViolations(l)
               ELSE StepViolations(st, l, t)
     IN /\ st' = t
        /\ vs # {} => PrintT("VIOL " \o ToJson([line |-> pos + 1, run |-> l.run, vs |-> SetToSeq(vs)]))
        /\ pos + 1 = Len(Log) => PrintT("DONE " \o ToString(pos + 1))

Spec == Init /\ [][Next]_<<pos, st>>
=============================================================================
