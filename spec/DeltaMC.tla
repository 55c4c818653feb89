------------------------------- MODULE DeltaMC -------------------------------
(***************************************************************************)
(* Production of a delta, step by step: the archive of the new package is   *)
(* unpacked into a working directory, what is needed is copied entry by     *)
(* entry, the delta is put together there, and placed where it was asked    *)
(* for. Any step may fail. Explored for all pairs of small packages.        *)
(***************************************************************************)
EXTENDS DeltaPackage, SequencesExt, TLC

CONSTANTS MaxFiles, PATHS, CONTENTS, InPlace   \* InPlace: the target is written where it is looked for
NoDir == "none"

\* Packages: for each path nothing, a directory (""), or a content
Trees == {t \in [PATHS -> CONTENTS \cup {"", "-"}] : Cardinality({p \in PATHS : t[p] # "-"}) <= MaxFiles}
Files(t) == SetToSeq({[p |-> x, h |-> t[x]] : x \in {x \in PATHS : t[x] # "-"}})
Tar(t) == [i \in DOMAIN Files(t) |-> [p |-> Files(t)[i].p, e |-> Files(t)[i].h = "", d |-> Files(t)[i].h]]
Package(t, rel, name) == [name |-> name, rel |-> rel, dist |-> "1", arch |-> "x", files |-> Files(t), tar |-> Tar(t), has |-> TRUE,
                          members |-> <<[n |-> "metadata.xml", d |-> ToString(rel)], [n |-> "files.xml", d |-> t]>>]

VARIABLES old, new, pc, i, work, made, target, result, faults
vars == <<old, new, pc, i, work, made, target, result, faults>>
\* work: what is in the working directory; made: entries copied so far; target: what is found there ("part": some of it)

Init == /\ \E a, b \in Trees : \E r \in {1, 2} : \E m \in {"x", "y"} : old = Package(a, r, m) /\ new = Package(b, 2, "x")
        /\ pc = "open" /\ i = 1 /\ work = {} /\ made = <<>> /\ target = "none" /\ result = "" /\ faults = 0

Go(p) == pc' = p
Finish(r) == pc' = "clean" /\ result' = r

Open == /\ pc = "open"
        /\ IF Possible(old, new) THEN Go("diff") /\ UNCHANGED result ELSE Finish("mismatch")
        /\ UNCHANGED <<old, new, i, work, made, target, faults>>
Diff == /\ pc = "diff"
        /\ IF Pointless(old, new) THEN Finish("pointless")
           ELSE Go(IF Needed(old, new) = {} THEN "zip" ELSE "unpack") /\ UNCHANGED result
        /\ UNCHANGED <<old, new, i, work, made, target, faults>>
Unpack == pc = "unpack" /\ Go("copy") /\ work' = work \cup {"install.tar"} /\ UNCHANGED <<old, new, i, made, target, result, faults>>
Copy == /\ pc = "copy"
        /\ IF i > Len(new.tar) THEN Go("pack") /\ UNCHANGED <<i, made>>
           ELSE /\ pc' = pc /\ i' = i + 1
                /\ made' = IF new.tar[i].p \in Needed(old, new) THEN Append(made, new.tar[i]) ELSE made
        /\ UNCHANGED <<old, new, work, target, result, faults>>
Pack == pc = "pack" /\ Go("zip") /\ work' = work \cup {"install.tar.xz"} /\ UNCHANGED <<old, new, i, made, target, result, faults>>
Assemble == pc = "zip" /\ Go("place") /\ work' = work \cup {"delta"} /\ UNCHANGED <<old, new, i, made, target, result, faults>>
Place == /\ pc = "place"
         /\ IF InPlace /\ target = "none" THEN target' = "part" /\ UNCHANGED <<pc, result>>
            ELSE target' = "whole" /\ Finish("ok")
         /\ UNCHANGED <<old, new, i, work, made, faults>>
Fail == /\ faults < 1 /\ pc \notin {"clean", "done"}
        /\ Finish("error") /\ faults' = faults + 1
        /\ UNCHANGED <<old, new, i, work, made, target>>
Clean == pc = "clean" /\ Go("done") /\ work' = {} /\ UNCHANGED <<old, new, i, made, target, result, faults>>

Next == Open \/ Diff \/ Unpack \/ Copy \/ Pack \/ Assemble \/ Place \/ Fail \/ Clean
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Made == [new EXCEPT !.tar = made, !.has = Needed(old, new) # {}]
\* ---- the property ----
Right == target = "whole" => /\ Possible(old, new)
                             /\ Made = Delta(old, new)
                             /\ Obtainable(old, new, Made) /\ NothingExtra(old, new, Made)
NoPart == pc = "done" => target \in {"none", "whole"}
Tidy == pc = "done" => work = {} /\ (result # "ok" => target = "none")
Says == pc = "done" => result \in {Outcome(old, new), "error"} /\ (result = "error" => faults > 0)
Ends == <>(pc = "done")
=============================================================================
