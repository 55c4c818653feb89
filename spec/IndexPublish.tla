---------------------------- MODULE IndexPublish ----------------------------
(***************************************************************************)
(* How ferryd publishes an index: every file is first prepared aside, in    *)
(* two steps (so that a run may be cut off in between), a copy after what   *)
(* it is made of; only when all of them are complete they replace the       *)
(* visible ones, one by one, in any order. A failing step ends the run and  *)
(* removes what was aside; a crash leaves it, and the next run has to cope. *)
(***************************************************************************)
EXTENDS IndexView

CONSTANTS Versions, Faults,
          Overwrites,   \* the compressors replace what a crash left behind
          Ordered,      \* publication waits for everything to be prepared
          Atomic        \* files replace the visible ones as a whole

VARIABLES s, aside, ok, faults, db
vars == <<s, aside, ok, faults, db>>
\* db: the version that the repository's state stands for; ok: the last run succeeded
Half == -1
Some == {<<"xml", "">>, <<"xml", ".sha1sum">>, <<"xml.xz", "">>, <<"xml.xz", ".sha1sum">>}

Needs(f) == IF f[2] # "" THEN {<<f[1], "">>} ELSE IF f[1] # "xml" THEN {<<"xml", "">>} ELSE {}
Clear == [f \in Files |-> 0]
Ready(f) == aside[f] = s.new

TypeOK == /\ s.vis \in [Files -> {0, Half} \cup Versions]
          /\ s.run \in {"idle", "staging", "publishing"}
          /\ aside \in [Files -> {0, Half} \cup Versions]

Init == s = Start(Clear, 0) /\ aside = Clear /\ ok = FALSE /\ faults = 0 /\ db = 1

Change == /\ s.run = "idle" /\ db + 1 \in Versions
          /\ db' = db + 1
          /\ ok' = FALSE
          /\ UNCHANGED <<s, aside, faults>>

BeginRun == s.run = "idle" /\ s' = Begin(s, db) /\ ok' = FALSE /\ UNCHANGED <<aside, faults, db>>

\* Which files have been prepared in this run; what a crash left of the same version is as good
StageHalf(f) ==
  /\ s.run = "staging"
  /\ \A n \in Needs(f) : Ready(n)
  /\ ~Ready(f) /\ aside[f] # Half
  /\ aside' = [aside EXCEPT ![f] = Half]
  /\ UNCHANGED <<s, ok, faults, db>>
StageRest(f) ==
  /\ s.run = "staging"
  /\ \A n \in Needs(f) : Ready(n)
  /\ aside[f] = Half
  /\ (f[1] # "xml" /\ f[2] = "") => Overwrites
  /\ aside' = [aside EXCEPT ![f] = s.new]
  /\ UNCHANGED <<s, ok, faults, db>>
\* A compressor that refuses to replace what is there
Refuse(f) ==
  /\ s.run = "staging" /\ ~Overwrites
  /\ f[1] # "xml" /\ f[2] = ""
  /\ \A n \in Needs(f) : Ready(n)
  /\ aside[f] = Half
  /\ s' = Stop(s)
  /\ aside' = Clear
  /\ UNCHANGED <<ok, faults, db>>

Prepared == \A f \in Files : Ready(f)
Rename(f) ==
  /\ s.run \in {"staging", "publishing"}
  /\ IF Ordered THEN s.run = "publishing" \/ Prepared ELSE TRUE
  /\ IF Atomic THEN Ready(f) ELSE Ready(f) \/ aside[f] = Half
  /\ s' = IF aside[f] = Half THEN [s EXCEPT !.vis[f] = Half, !.run = "publishing"] ELSE Show(s, {f})
  /\ aside' = [aside EXCEPT ![f] = IF Ordered THEN 0 ELSE @]
  /\ UNCHANGED <<ok, faults, db>>
Succeed == /\ s.run = "publishing" /\ CanSucceed(s)
           /\ s' = Stop(s) /\ ok' = TRUE
           /\ UNCHANGED <<aside, faults, db>>
Fail == /\ s.run # "idle" /\ faults < Faults
        /\ s' = Stop(s) /\ aside' = Clear /\ faults' = faults + 1
        /\ UNCHANGED <<ok, db>>
Crash == /\ faults < Faults /\ s.run # "idle"
         /\ s' = Stop(s) /\ faults' = faults + 1
         /\ UNCHANGED <<aside, ok, db>>

Step == BeginRun \/ Succeed \/ (\E f \in Files : StageHalf(f) \/ StageRest(f) \/ Rename(f) \/ Refuse(f))
Next == Change \/ Step \/ Fail \/ Crash
Fair == WF_vars(Step)
Spec == Init /\ [][Next]_vars /\ Fair

\* Whatever happens, what is visible is complete
Complete == \A f \in Files : s.vis[f] # Half
\* After a run that succeeded, everything agrees
Agree == ok => Whole(s.vis, db)
\* A run that fails before it published anything has changed nothing
Untouched == [][(s.run = "staging" /\ s'.run = "idle") => s'.vis = s.vis]_vars
\* While it publishes, nothing is left to be prepared that could fail
PreparedFirst == [][(s.run = "staging" /\ s'.run = "publishing") => Prepared]_vars
\* Runs do succeed once nothing goes wrong any more
Recovers == []<>(ok)

\* and none fails of itself, whatever a crash has left behind
Robust == [][(s.run # "idle" /\ s'.run = "idle") => (ok' \/ faults' > faults)]_vars

\* and every step is one that clients may see
View == [][\/ s'.vis = s.vis
           \/ \E S \in SUBSET {f \in Files : s.vis[f] # s'.vis[f]} : CanShow(s, S) /\ s' = Show(s, S)]_vars
=============================================================================
