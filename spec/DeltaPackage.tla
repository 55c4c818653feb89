---------------------------- MODULE DeltaPackage ----------------------------
(***************************************************************************)
(* What a delta between two packages is. A package is                       *)
(*   [name, rel, dist, arch,                                                 *)
(*    files:   what its file list says, <<[p |-> path, h |-> hash]>>,        *)
(*    tar:     its archive, <<[p |-> path, e |-> attributes, d |-> data]>>,  *)
(*    has:     whether it has an archive at all,                             *)
(*    members: its other members, in order, <<[n |-> name, d |-> data]>>]    *)
(* A directory has the hash "". A hash stands for one content.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
Hashes(p) == {f.h : f \in Range(p.files)}
Paths(p) == {f.p : f \in Range(p.files)}

Possible(o, n) == o.name = n.name /\ o.dist = n.dist /\ o.arch = n.arch /\ o.rel < n.rel

\* What the old package does not have the content of, and the directories
Needed(o, n) == {f.p : f \in {f \in Range(n.files) : f.h = "" \/ f.h \notin Hashes(o)}}

\* Nothing would be saved
Pointless(o, n) == Needed(o, n) = Paths(n)

Archive(o, n) == LET S == Needed(o, n) IN SelectSeq(n.tar, LAMBDA x : x.p \in S)
Delta(o, n) == [n EXCEPT !.tar = Archive(o, n), !.has = Needed(o, n) # {}]

Outcome(o, n) == IF ~Possible(o, n) THEN "mismatch" ELSE IF Pointless(o, n) THEN "pointless" ELSE "ok"

\* ---- what it is for ----
\* The content of each file of the new package is in the delta or in the old package
DataAt(p, path) == {x.d : x \in {x \in Range(p.tar) : x.p = path}}
Obtainable(o, n, delta) ==
  \A f \in Range(n.files) :
    \/ DataAt(n, f.p) # {} /\ DataAt(n, f.p) \subseteq DataAt(delta, f.p)
    \/ f.h # "" /\ \E g \in Range(o.files) : g.h = f.h /\ DataAt(n, f.p) \subseteq DataAt(o, g.p)
\* and the delta has nothing that the new package does not have, or the old one has already
NothingExtra(o, n, delta) ==
  \A x \in Range(delta.tar) :
    x \in Range(n.tar) /\ \E f \in Range(n.files) : f.p = x.p /\ (f.h = "" \/ \A g \in Range(o.files) : g.h # f.h)
=============================================================================
