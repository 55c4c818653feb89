----------------------------- MODULE LockTrace -----------------------------
(***************************************************************************)
(* Checks what real daemons on one base directory did, seen from outside:  *)
(* when they were started, each time they used the directory (any change   *)
(* to it but to the lock file), when they had closed their stores, when    *)
(* they answered, and when they were gone. Whoever uses it owns it. A job  *)
(* that is held up is running until it is freed.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pos, st, alone, busy
Procs == {"p", "q", "r", "s"}

Off == [p \in Procs |-> "off"]
Owners(p) == {q \in Procs \ {p} : st[q] = "owner"}

Bad(l) ==
  CASE l.ev = "use" -> (IF Owners(l.p) # {} THEN {"a daemon uses the directory while another one owns it: " \o l.what} ELSE {})
                       \cup (IF st[l.p] = "off" THEN {"a daemon that has not been started uses the directory"} ELSE {})
                       \cup (IF st[l.p] = "done" THEN {"a daemon uses the directory after it has closed its stores: " \o l.what} ELSE {})
                       \cup (IF l.closes /\ l.p \in busy THEN {"a daemon closes its stores while a job is running: " \o l.what} ELSE {})
    [] l.ev = "gone" -> IF l.killed \/ l.stopped \/ l.p \notin alone THEN {}
                        ELSE IF st[l.p] = "trying" THEN {"a daemon is refused although there is no other one"}
                        ELSE {"a daemon does not start although there is no other one"}
    [] l.ev = "mute" -> IF l.p \in alone THEN {"a daemon does not answer although there is no other one"} ELSE {}
    [] l.ev = "stuck" -> {"a daemon does not stop"}
    [] OTHER -> {}

Init == pos = 0 /\ st = Off /\ alone = {} /\ busy = {}
Next ==
  /\ pos < Len(Log) /\ pos' = pos + 1
  /\ LET l == Log[pos + 1]
         bad == Bad(l)
     IN /\ st' = CASE l.ev = "init" -> Off
                   [] l.ev = "start" -> [st EXCEPT ![l.p] = "trying"]
                   [] l.ev = "use" /\ st[l.p] = "trying" -> [st EXCEPT ![l.p] = "owner"]
                   [] l.ev = "closed" -> [st EXCEPT ![l.p] = "done"]
                   [] l.ev = "gone" -> [st EXCEPT ![l.p] = "off"]
                   [] OTHER -> st
        /\ alone' = CASE l.ev = "init" -> {}
                      [] l.ev = "start" -> IF \A q \in Procs \ {l.p} : st[q] = "off" THEN {l.p} ELSE {}
                      [] OTHER -> alone
        /\ busy' = CASE l.ev = "init" -> {}
                     [] l.ev = "job" -> busy \cup {l.p}
                     [] l.ev \in {"freed", "gone", "start"} -> busy \ {l.p}
                     [] OTHER -> busy
        /\ bad # {} => PrintT("VIOL " \o ToJson([line |-> pos + 1, run |-> l.run, whats |-> SetToSeq(bad)]))
        /\ pos + 1 = Len(Log) => PrintT("DONE " \o ToString(pos + 1))
Spec == Init /\ [][Next]_<<pos, st, alone, busy>>
=============================================================================
