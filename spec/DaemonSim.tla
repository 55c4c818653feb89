----------------------------- MODULE DaemonSim ------------------------------
(***************************************************************************)
(* Generates sessions of clients with a daemon, over FerryCoreSim's        *)
(* universe and mix of requests: requests one by one or at the same time,  *)
(* some while the daemon is busy with a job (hold: the next job that wants *)
(* to change a file waits until the release), uploads, malformed requests, *)
(* resets, restarts. In a flood, more happens in the upload directory than *)
(* can be remembered, before the upload is stored. At a fault, nothing can *)
(* be stored while a request is made, so no job comes of it.               *)
(***************************************************************************)
EXTENDS FerryCoreSim, Daemon

VARIABLES held, up, emit
dvars == <<st, hist, held, up, emit>>

\* As FerryCoreSim has no clients
Asked(o) == IF o.op = "delta" THEN [op |-> "deltarepo", repo |-> o.repo]
            ELSE IF o.op = "import" /\ Chance(15) THEN [o EXCEPT !.files = <<>>]
            ELSE IF o.op = "upload" THEN [o EXCEPT !.man.form = "file"]
            ELSE IF o.op = "trim" /\ Chance(4) THEN [o EXCEPT !.keep = Pick(<<-2147483647, 2147483647, 1000000>>)]
            ELSE IF o.op \in {"remove", "copy"} /\ Chance(8) THEN [o EXCEPT !.rel = Pick(<<-2147483647, 2147483647, -2, 1000000>>)]
            ELSE o

Put(act) == hist' = Append(hist, act)

Some(s, o) == {RandomElement(Perform(U, s, o))}

DInit == Init /\ held = FALSE /\ up = FALSE /\ emit = FALSE

Request ==
  \E o1 \in Ops(st) : LET o == Asked(o1) IN
    IF \/ ~Usable(st, o1) \/ o.op = "restart"
       \/ (o.op \in {"assets", "mess"} /\ held)
       \/ (o.op = "upload" /\ up)
    THEN UNCHANGED dvars
    ELSE \E r \in Some(st, o) :
           /\ st' = r.st
           /\ Put([a |-> IF o.op \in {"assets", "mess"} THEN "direct" ELSE IF o.op # "upload" THEN "req" ELSE IF ~held /\ Chance(3) THEN "flood" ELSE "upload", op |-> o])
           /\ up' = (up \/ (o.op = "upload" /\ held))
           /\ UNCHANGED <<held, emit>>

\* Requests of several clients, without files (whoever is first takes them)
Fileless(s) == {o \in Ops(s) : o.op \in {"create", "delete", "index", "remove", "trim", "trimobs", "clone", "pull", "copy"}}
Burst ==
  \E os \in {<<Fileless(st), Fileless(st), Fileless(st)>>} :
    IF \E k \in 1..3 : os[k] = {} THEN UNCHANGED dvars
    ELSE \E x \in {CHOOSE o \in os[1] : TRUE}, y \in {CHOOSE o \in os[2] : TRUE}, z \in {CHOOSE o \in os[3] : TRUE} :
         \E r \in Some(st, x) : \E r2 \in Some(r.st, y) : \E r3 \in Some(r2.st, z) :
           /\ st' = r3.st
           /\ Put([a |-> "burst", ops |-> <<x, y, z>>])
           /\ UNCHANGED <<held, up, emit>>

Other ==
  \E k \in {RandomElement(1..10)} : \E n \in {RandomElement(0..40)} :
    /\ CASE k <= 3 /\ ~held -> Put([a |-> "hold"]) /\ held' = TRUE /\ UNCHANGED up
         [] k <= 3 /\ held  -> Put([a |-> "go"]) /\ held' = FALSE /\ up' = FALSE
         [] k \in {4, 5}    -> Put([a |-> "restart"]) /\ held' = FALSE /\ up' = FALSE
         [] k \in {6, 7, 8} -> Put([a |-> "raw", k |-> n]) /\ UNCHANGED <<held, up>>
         [] k = 9           -> Put([a |-> "resetdone"]) /\ UNCHANGED <<held, up>>
         [] OTHER           -> Put([a |-> "resetfailed"]) /\ UNCHANGED <<held, up>>
    /\ UNCHANGED <<st, emit>>

Finish1 == /\ emit' = TRUE /\ UNCHANGED <<st, hist, held, up>>
           /\ PrintT("SCRIPT " \o ToJson(hist))

Fault ==
  \E o1 \in Ops(st) : LET o == Asked(o1) IN
    IF ~Usable(st, o1) \/ o.op \in {"restart", "assets", "mess", "upload"} THEN UNCHANGED dvars
    ELSE Put([a |-> "fault", op |-> o]) /\ UNCHANGED <<st, held, up, emit>>

DNext ==
  /\ ~emit
  /\ IF Len(hist) >= DEPTH THEN Finish1
     ELSE \E k \in {RandomElement(1..10)} :
            IF k <= 6 THEN Request ELSE IF k = 7 THEN Burst ELSE IF ~held /\ Chance(6) THEN Fault ELSE Other

DSpec == DInit /\ [][DNext]_dvars
=============================================================================
