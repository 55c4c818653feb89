------------------------------ MODULE LockSim ------------------------------
(***************************************************************************)
(* Generates schedules of LockFile, to be followed by real daemons. Who    *)
(* takes the next step is picked at random; the steps between two system   *)
(* calls on the lock file of a real daemon may be more or fewer than here. *)
(***************************************************************************)
EXTENDS LockFile, Sequences, Json, IOUtils

DEPTH == atoi(IOEnv.DEPTH)
VARIABLE hist
Chance(k) == RandomElement(1..k) = 1
L(a, p) == hist' = Append(hist, [a |-> a, p |-> p])

SInit == Init /\ path = 1 /\ hist = <<>> /\ owner = [i \in 1..MaxInodes |-> Nobody]
Moves(p) == \/ Start(p) /\ L("start", p)
            \/ Step(p) /\ L("step", p)
            \/ Stop(p) /\ Chance(2) /\ L("stop", p)
            \/ pc[p] = "work" /\ Chance(3) /\ L("job", p) /\ UNCHANGED vars
            \/ Kill(p) /\ Chance(8) /\ L("kill", p)
SNext == \/ Len(hist) < DEPTH /\ \E p \in Procs : Moves(p)
         \/ Len(hist) = DEPTH /\ PrintT("SCRIPT " \o ToJson(hist)) /\ L("end", "") /\ UNCHANGED vars
SSpec == SInit /\ [][SNext]_<<vars, hist>>
=============================================================================
