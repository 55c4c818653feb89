----------------------------- MODULE FerryCrash -----------------------------
(***************************************************************************)
(* Crashes. The jobs of FerryCore step by step, as they reach the disk: the *)
(* files of the pool and of each repository, one by one, and the database,  *)
(* a transaction at a time. The daemon may die between any two steps, and   *)
(* in the middle of a copy; it then starts again, and the job that was cut  *)
(* off is run once more from its beginning. It has to come out as if it had *)
(* never been cut off.                                                      *)
(*                                                                          *)
(* The database: rec (repositories), held (what each holds), ref (reference *)
(* counts; 0: not pooled). The disk: pool, tree, dirs, idx (what the index  *)
(* lists; "none": there is none). txn is the transaction in progress.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Repos, Pkgs, Kinds, MaxJobs, MaxCrashes,
          CrashIn,     \* the kinds of jobs that crashes happen in
          Joined,      \* a reference and the record of who holds it are written in one transaction
          DirsFirst    \* a repository's directories are removed before its record is

VARIABLES db, txn, disk, job, pc, todo, before, jobs, crashes
vars == <<db, txn, disk, job, pc, todo, before, jobs, crashes>>

NoJob == [k |-> "none"]
Empty == [rec |-> {}, held |-> [r \in Repos |-> {}], ref |-> [p \in Pkgs |-> 0]]
Clean == [pool |-> [p \in Pkgs |-> "no"], tree |-> [r \in Repos |-> [p \in Pkgs |-> "no"]], dirs |-> {}, idx |-> [r \in Repos |-> {"none"}]]

Holders(d, p) == {r \in d.rec : p \in d.held[r]}

\* ---- what a job does, as a whole (the outcome that a user sees) ----
S(d, k) == [db |-> d, disk |-> k]
Put(s, r, p) == IF p \in s.db.held[r] THEN s ELSE
  S([s.db EXCEPT !.held[r] = @ \cup {p}, !.ref[p] = @ + 1],
    [s.disk EXCEPT !.pool[p] = "whole", !.tree[r][p] = "whole"])
Take(s, r, p) == IF p \notin s.db.held[r] THEN s ELSE
  S([s.db EXCEPT !.held[r] = @ \ {p}, !.ref[p] = @ - 1],
    [s.disk EXCEPT !.pool[p] = IF s.db.ref[p] = 1 THEN "no" ELSE @, !.tree[r][p] = "no"])
RECURSIVE PutAll(_, _, _), TakeAll(_, _, _)
PutAll(s, r, q) == IF q = <<>> THEN s ELSE PutAll(Put(s, r, Head(q)), r, Tail(q))
TakeAll(s, r, q) == IF q = <<>> THEN s ELSE TakeAll(Take(s, r, Head(q)), r, Tail(q))
Index(s, r) == [s EXCEPT !.disk.idx[r] = s.db.held[r]]
Make(s, r) == S([s.db EXCEPT !.rec = @ \cup {r}], [s.disk EXCEPT !.dirs = @ \cup {r}])

RECURSIVE Seq1(_)
Seq1(A) == IF A = {} THEN <<>> ELSE LET x == CHOOSE x \in A : TRUE IN <<x>> \o Seq1(A \ {x})

\* Is job j refused, and what packages is it about
Refused(d, k, j) ==
  CASE j.k \in {"add", "index"} -> j.r \notin d.rec
    [] j.k = "upload" -> j.r \notin d.rec
    [] j.k = "rem" -> j.r \notin d.rec \/ {j.ps[i] : i \in DOMAIN j.ps} \cap d.held[j.r] = {}
    [] j.k = "copy" -> j.r \notin d.rec \/ j.from \notin d.rec \/ j.from = j.r \/ d.held[j.from] = {}
    [] j.k = "create" -> j.r \in d.rec \/ j.r \in k.dirs
    [] j.k = "clone" -> j.r \in d.rec \/ j.r \in k.dirs \/ j.from \notin d.rec
    [] j.k = "delete" -> j.r \notin d.rec
List(d, j) == CASE j.k \in {"add", "upload", "rem"} -> j.ps
                [] j.k \in {"copy", "clone"} -> Seq1(d.held[j.from])
                [] j.k = "delete" -> Seq1(d.held[j.r])
                [] OTHER -> <<>>
\* An upload stops at the first package that is there already
RECURSIVE Accepted(_, _, _)
Accepted(d, r, q) == IF q = <<>> \/ Head(q) \in d.held[r] THEN <<>> ELSE <<Head(q)>> \o Accepted(d, r, Tail(q))

Result(s, j) ==
  IF Refused(s.db, s.disk, j) THEN s ELSE
  CASE j.k \in {"add", "copy"} -> Index(PutAll(s, j.r, List(s.db, j)), j.r)
    [] j.k = "upload" -> LET a == Accepted(s.db, j.r, j.ps)  t == PutAll(s, j.r, a) IN IF Len(a) = Len(j.ps) THEN Index(t, j.r) ELSE t
    [] j.k = "rem" -> Index(TakeAll(s, j.r, List(s.db, j)), j.r)
    [] j.k = "create" -> Index(Make(s, j.r), j.r)
    [] j.k = "clone" -> Index(PutAll(Make(s, j.r), j.r, List(s.db, j)), j.r)
    [] j.k = "index" -> Index(s, j.r)
    [] j.k = "delete" -> LET t == TakeAll(s, j.r, List(s.db, j))
                         IN S([t.db EXCEPT !.rec = @ \ {j.r}], [t.disk EXCEPT !.dirs = @ \ {j.r}, !.idx[j.r] = {"none"}])

\* ---- step by step ----
Now == S(db, disk)
Init == db = Empty /\ txn = Empty /\ disk = Clean /\ job = NoJob /\ pc = "idle" /\ todo = <<>> /\ before = S(Empty, Clean) /\ jobs = 0 /\ crashes = 0

PkgSeqs == {<<p>> : p \in Pkgs} \cup {q \in [1..2 -> Pkgs] : q[1] # q[2]}
Jobs == {j \in [k : Kinds, r : Repos, from : Repos, ps : PkgSeqs] :
           /\ (j.k \notin {"copy", "clone"}) => j.from = j.r
           /\ (j.k \in {"copy", "clone"}) => j.from # j.r
           /\ (j.k \notin {"add", "upload", "rem"}) => j.ps = <<CHOOSE p \in Pkgs : TRUE>>}

Accept == /\ pc = "idle" /\ job = NoJob /\ jobs < MaxJobs
          /\ \E j \in Jobs : job' = j
          /\ before' = Now /\ jobs' = jobs + 1 /\ pc' = "start"
          /\ UNCHANGED <<db, txn, disk, todo, crashes>>

Begin == /\ pc = "start"
         /\ txn' = db
         /\ IF Refused(db, disk, job) THEN pc' = "done" /\ todo' = <<>>
            ELSE /\ pc' = IF job.k \in {"create", "clone"} THEN "record" ELSE "next"
                 /\ todo' = List(db, job)
         /\ UNCHANGED <<db, disk, job, before, jobs, crashes>>

Record == /\ pc = "record" /\ pc' = "mkdirs"
          /\ db' = [db EXCEPT !.rec = @ \cup {job.r}] /\ txn' = db'
          /\ UNCHANGED <<disk, job, todo, before, jobs, crashes>>
Mkdirs == /\ pc = "mkdirs" /\ pc' = "next"
          /\ disk' = [disk EXCEPT !.dirs = @ \cup {job.r}]
          /\ UNCHANGED <<db, txn, job, todo, before, jobs, crashes>>

Adding == job.k \in {"add", "upload", "copy", "clone"}
P == Head(todo)
Skip == P \in db.held[job.r]
Step(to) == pc' = to /\ UNCHANGED <<job, before, jobs, crashes>>

NextOne == /\ pc = "next"
           /\ IF todo = <<>> THEN (IF job.k = "delete" THEN (IF DirsFirst THEN Step("rmdirs") ELSE Step("commit")) ELSE Step("index")) /\ UNCHANGED <<db, txn, disk, todo>>
              ELSE IF Adding THEN
                     IF Skip THEN (IF job.k = "upload" THEN Step("done") /\ todo' = <<>> ELSE Step("next") /\ todo' = Tail(todo)) /\ UNCHANGED <<db, txn, disk>>
                     ELSE Step("pool") /\ UNCHANGED <<db, txn, disk, todo>>
              ELSE IF P \in txn.held[job.r] THEN Step("untree") /\ UNCHANGED <<db, txn, disk, todo>>
              ELSE Step("next") /\ todo' = Tail(todo) /\ UNCHANGED <<db, txn, disk>>

\* Adding: the pool's file if need be (linked at once, or copied), the repository's, the records
Pool == /\ pc = "pool"
        /\ IF txn.ref[P] > 0 \/ disk.pool[P] = "whole" THEN Step("tree") /\ UNCHANGED disk
           ELSE \/ disk' = [disk EXCEPT !.pool[P] = "whole"] /\ Step("tree")
                \/ disk' = [disk EXCEPT !.pool[P] = "part"] /\ Step("pool2")
        /\ UNCHANGED <<db, txn, todo>>
Pool2 == pc = "pool2" /\ disk' = [disk EXCEPT !.pool[P] = "whole"] /\ Step("tree") /\ UNCHANGED <<db, txn, todo>>
Tree == /\ pc = "tree"
        /\ \/ disk' = [disk EXCEPT !.tree[job.r][P] = disk.pool[P]] /\ Step("put")
           \/ disk' = [disk EXCEPT !.tree[job.r][P] = "part"] /\ Step("tree2")
        /\ UNCHANGED <<db, txn, todo>>
Tree2 == pc = "tree2" /\ disk' = [disk EXCEPT !.tree[job.r][P] = disk.pool[P]] /\ Step("put") /\ UNCHANGED <<db, txn, todo>>
PutIn == /\ pc = "put"
         /\ IF Joined THEN db' = [db EXCEPT !.ref[P] = @ + 1, !.held[job.r] = @ \cup {P}] /\ Step("next") /\ todo' = Tail(todo)
            ELSE db' = [db EXCEPT !.ref[P] = @ + 1] /\ Step("put2") /\ UNCHANGED todo
         /\ txn' = db' /\ UNCHANGED disk
PutIn2 == pc = "put2" /\ db' = [db EXCEPT !.held[job.r] = @ \cup {P}] /\ txn' = db' /\ Step("next") /\ todo' = Tail(todo) /\ UNCHANGED disk

\* Removing: the repository's file, the pool's if nobody else has it, the records (a deletion: at its end)
Untree == pc = "untree" /\ disk' = [disk EXCEPT !.tree[job.r][P] = "no"] /\ Step("unpool") /\ UNCHANGED <<db, txn, todo>>
Unpool == /\ pc = "unpool"
          /\ disk' = [disk EXCEPT !.pool[P] = IF txn.ref[P] = 1 THEN "no" ELSE @]
          /\ Step("drop") /\ UNCHANGED <<db, txn, todo>>
Drop == /\ pc = "drop"
        /\ txn' = [txn EXCEPT !.ref[P] = @ - 1, !.held[job.r] = @ \ {P}]
        /\ db' = IF job.k = "delete" THEN db ELSE txn'
        /\ todo' = Tail(todo) /\ Step("next") /\ UNCHANGED disk
Rmdirs == /\ pc = "rmdirs"
          /\ disk' = [disk EXCEPT !.dirs = @ \ {job.r}, !.idx[job.r] = {"none"}, !.tree[job.r] = [p \in Pkgs |-> "no"]]
          /\ Step(IF DirsFirst THEN "commit" ELSE "done") /\ UNCHANGED <<db, txn, todo>>
Commit == /\ pc = "commit"
          /\ db' = [txn EXCEPT !.rec = @ \ {job.r}] /\ txn' = db'
          /\ Step(IF DirsFirst THEN "done" ELSE "rmdirs") /\ UNCHANGED <<disk, todo>>

IndexIt == pc = "index" /\ disk' = [disk EXCEPT !.idx[job.r] = db.held[job.r]] /\ Step("done") /\ UNCHANGED <<db, txn, todo>>

Retire == pc = "done" /\ job' = NoJob /\ pc' = "idle" /\ todo' = <<>> /\ UNCHANGED <<db, txn, disk, before, jobs, crashes>>

\* The directories of a known repository are made again when they are first needed
Crash == /\ job # NoJob /\ job.k \in CrashIn /\ crashes < MaxCrashes
         /\ crashes' = crashes + 1 /\ pc' = "start" /\ todo' = <<>> /\ txn' = db
         /\ disk' = disk
         /\ UNCHANGED <<db, job, before, jobs>>

Next == Accept \/ Begin \/ Record \/ Mkdirs \/ NextOne \/ Pool \/ Pool2 \/ Tree \/ Tree2 \/ PutIn \/ PutIn2 \/ Untree \/ Unpool \/ Drop \/ Rmdirs \/ Commit
        \/ IndexIt \/ Retire \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- the property ----
Exact == \A p \in Pkgs : db.ref[p] = Cardinality(Holders(db, p))
\* What is held is there, unless it is being removed
Going(r, p) == job # NoJob /\ job.r = r /\ job.k \in {"rem", "delete"} /\ (job.k = "rem" => \E i \in DOMAIN job.ps : job.ps[i] = p)
Kept == \A r \in db.rec : \A p \in db.held[r] : ~Going(r, p) =>
          disk.tree[r][p] = "whole" /\ (disk.pool[p] = "whole" \/ \E q \in Repos : Going(q, p) /\ Holders(db, p) = {q})
\* A job has come out as if it had not been cut off
Repaired == pc = "done" /\ todo = <<>> => Now = Result(before, job)
Ends == (pc = "start") ~> (pc = "idle")
=============================================================================
