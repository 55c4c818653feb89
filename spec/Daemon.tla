------------------------------- MODULE Daemon -------------------------------
(***************************************************************************)
(* ferryd as its clients see it. Requests and uploads are accepted as jobs *)
(* at any time, and done one after another in the order they were accepted *)
(* in; each outcome is recorded in one of two histories. What a job does   *)
(* is FerryCore's Step. A daemon that is stopped and started again keeps   *)
(* all of it.                                                              *)
(*                                                                         *)
(* A record d of                                                           *)
(*   sts     the states the repositories may be in (jobs may have several  *)
(*           outcomes; what has been seen of them leaves fewer)            *)
(*   q       jobs not done yet, in order: [op, desc, grp], those of one    *)
(*           grp were requested at the same time, so in any order          *)
(*   done, failed   what the histories list: descriptions                  *)
(*   extra   jobs that jobs may have made in the meantime, for the other   *)
(*           queue: Delta jobs, which ferryd has no handler for at present *)
(***************************************************************************)
EXTENDS FerryCore

Daemon0(s) == [sts |-> {s}, q |-> <<>>, done |-> <<>>, failed |-> <<>>, extra |-> 0]

Accept(d, es) == [d EXCEPT !.q = @ \o es]

Perform(u, s, o) ==
  IF o.op = "deltarepo"
  THEN {[ok |-> Exists(s, o.repo), st |-> s]}
  ELSE Step(u, s, o)

Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))

\* Jobs that may be the next to be done
NextUp(d) == {k \in 1..Len(d.q) : \A j \in 1..(k - 1) : d.q[j].grp = d.q[k].grp}

Outcomes(u, d, k, ok) == {r.st : r \in {x \in UNION {Perform(u, s, d.q[k].op) : s \in d.sts} : x.ok = ok}}

\* The job at k is done, with success or without
Finish(u, d, k, ok, desc) ==
  [d EXCEPT !.q = Without(@, k), !.sts = Outcomes(u, d, k, ok),
            !.done = IF ok THEN Append(@, desc) ELSE @,
            !.failed = IF ok THEN @ ELSE Append(@, desc),
            !.extra = @ + (IF ok /\ d.q[k].op.op = "deltarepo"
                           THEN Cardinality(UNION {DOMAIN s.repos[d.q[k].op.repo].ents : s \in d.sts}) ELSE 0)]

ResetDone(d)   == [d EXCEPT !.done = <<>>]
ResetFailed(d) == [d EXCEPT !.failed = <<>>]

\* Names that a request may carry in its path
Carried(a) == ValidName(a)
InPath(o) == CASE o.op \in {"copy", "clone"} -> o.repo
               [] OTHER -> Target(o)
=============================================================================
