----------------------------- MODULE DeltaTrace -----------------------------
(* The deltas that the real code produced, checked against DeltaPackage.    *)
EXTENDS DeltaPackage, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos

\* l: what was produced of l.old and l.new: l.res is "ok", "pointless", "mismatch" or "error", l.fault tells what was made to fail;
\* l.target whether there is a file where the delta was asked for, l.delta what it is, l.left what is left behind
Wrong(l) ==
  LET faulty == l.fault # "" IN
  IF l.panic # "" THEN "it crashes"
  ELSE IF l.res # Outcome(l.old, l.new) /\ ~(faulty /\ l.res = "error") THEN "the outcome is " \o l.res
  ELSE IF l.target # (l.res = "ok") THEN "a target is left though there is no delta"
  ELSE IF l.left # <<>> THEN "working files are left behind"
  ELSE IF ~l.kept THEN "the packages were changed"
  ELSE IF l.res # "ok" THEN ""
  ELSE IF ~l.opens THEN "the delta does not open"
  ELSE IF l.delta.members # l.new.members THEN "the delta's members are not the new package's"
  ELSE IF l.delta.has # Delta(l.old, l.new).has THEN "the delta has an archive but needs none, or has none"
  ELSE IF l.delta.tar # Archive(l.old, l.new) THEN "the delta's archive is not what the old package lacks"
  ELSE IF ~Obtainable(l.old, l.new, l.delta) THEN "a file of the new package is in neither"
  ELSE IF ~NothingExtra(l.old, l.new, l.delta) THEN "the delta has more than it needs"
  ELSE IF l.delta.name # l.new.name \/ l.delta.rel # l.new.rel THEN "the delta is of another package"
  ELSE ""

Init == pos = 0
Next == /\ pos < Len(Log)
        /\ pos' = pos + 1
        /\ LET w == Wrong(Log[pos']) IN w # "" => PrintT("VIOL " \o ToJson([line |-> pos', what |-> w]))
        /\ pos' = Len(Log) => PrintT("DONE " \o ToString(pos'))
Spec == Init /\ [][Next]_pos
=============================================================================
