------------------------------ MODULE LockFile ------------------------------
(***************************************************************************)
(* Several daemons on one base directory: the lock file, at the level of   *)
(* the system calls. A daemon opens (and so creates) the file, tries to    *)
(* lock it, looks whether what it has locked is still the file at the path, *)
(* and works; to stop, it ends its jobs, closes its stores, removes the    *)
(* file and closes it. It may be killed at any moment; then, as whenever a *)
(* file is closed, the kernel drops its lock. What is at the path may be   *)
(* left over from long ago.                                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Procs, MaxStarts,
          Recheck,      \* look whether the file is still the one at the path
          RemoveFirst,  \* remove the file before closing it
          StoresFirst,  \* close the stores before that
          ByOwner       \* instead of the kernel's lock, believe what the file says

VARIABLES path,    \* the inode at the path, 0: none
          inodes,  \* how many there have been
          holder,  \* inode -> who has locked it
          owner,   \* inode -> who it says owns it
          fd,      \* process -> inode, 0: none
          pc, starts,
          alone    \* nobody else was there since it was started
vars == <<path, inodes, holder, owner, fd, pc, starts, alone>>

Nobody == "nobody"
MaxInodes == 2 * MaxStarts + 1
Init == /\ path \in {0, 1} /\ inodes = 1
        /\ holder = [i \in 1..MaxInodes |-> Nobody]
        /\ owner \in {[i \in 1..MaxInodes |-> IF i = 1 THEN o ELSE Nobody] : o \in Procs \cup {Nobody}}
        /\ fd = [p \in Procs |-> 0] /\ pc = [p \in Procs |-> "off"] /\ starts = 0
        /\ alone = [p \in Procs |-> FALSE]

Go(p, to) == pc' = [pc EXCEPT ![p] = to]

Start(p) == /\ pc[p] \in {"off", "refused"} /\ starts < MaxStarts /\ starts' = starts + 1
            /\ Go(p, "open")
            /\ alone' = [q \in Procs |-> IF q = p THEN \A x \in Procs \ {p} : pc[x] \in {"off", "refused"} ELSE FALSE]
            /\ UNCHANGED <<path, inodes, holder, owner, fd>>

Open(p) == /\ pc[p] = "open"
           /\ IF path = 0 THEN /\ inodes' = inodes + 1 /\ path' = inodes + 1 /\ fd' = [fd EXCEPT ![p] = inodes + 1]
              ELSE fd' = [fd EXCEPT ![p] = path] /\ UNCHANGED <<inodes, path>>
           \* what was open before is closed
           /\ holder' = [i \in DOMAIN holder |-> IF i = fd[p] /\ holder[i] = p /\ fd'[p] # i THEN Nobody ELSE holder[i]]
           /\ Go(p, "try") /\ UNCHANGED <<owner, starts, alone>>

Alive(p) == pc[p] \notin {"off", "refused"}
Try(p) == /\ pc[p] = "try"
          /\ IF ByOwner
             THEN IF owner[fd[p]] \in Procs \ {p} /\ Alive(owner[fd[p]])
                  THEN Go(p, "refused") /\ fd' = [fd EXCEPT ![p] = 0] /\ UNCHANGED holder
                  ELSE Go(p, "check") /\ UNCHANGED <<fd, holder>>
             ELSE IF holder[fd[p]] \in {Nobody, p}
                  THEN holder' = [holder EXCEPT ![fd[p]] = p] /\ Go(p, "check") /\ UNCHANGED fd
                  ELSE Go(p, "refused") /\ fd' = [fd EXCEPT ![p] = 0] /\ UNCHANGED holder
          /\ UNCHANGED <<path, inodes, owner, starts, alone>>
Check(p) == /\ pc[p] = "check"
            /\ Go(p, IF ~Recheck \/ fd[p] = path THEN "write" ELSE "open")
            /\ UNCHANGED <<path, inodes, holder, owner, fd, starts, alone>>
Write(p) == /\ pc[p] = "write" /\ owner' = [owner EXCEPT ![fd[p]] = p] /\ Go(p, "work")
            /\ UNCHANGED <<path, inodes, holder, fd, starts, alone>>

Stop(p) == pc[p] = "work" /\ Go(p, IF StoresFirst THEN "closing" ELSE "remove") /\ UNCHANGED <<path, inodes, holder, owner, fd, starts, alone>>
Closed(p) == pc[p] = "closing" /\ Go(p, IF StoresFirst THEN "remove" ELSE "off") /\ UNCHANGED <<path, inodes, holder, owner, fd, starts, alone>>
Release(p) == fd' = [fd EXCEPT ![p] = 0] /\ holder' = [i \in DOMAIN holder |-> IF holder[i] = p THEN Nobody ELSE holder[i]]
After(p) == IF StoresFirst THEN "off" ELSE "closing"
Remove(p) == /\ pc[p] = "remove"
             /\ IF RemoveFirst THEN path' = 0 /\ Go(p, "close") /\ UNCHANGED <<fd, holder>>
                ELSE Release(p) /\ Go(p, "close") /\ UNCHANGED path
             /\ UNCHANGED <<inodes, owner, starts, alone>>
Close(p) == /\ pc[p] = "close" /\ Go(p, After(p))
            /\ IF RemoveFirst THEN Release(p) /\ UNCHANGED path ELSE path' = 0 /\ UNCHANGED <<fd, holder>>
            /\ UNCHANGED <<inodes, owner, starts, alone>>

Kill(p) == Alive(p) /\ Release(p) /\ Go(p, "off") /\ UNCHANGED <<path, inodes, owner, starts, alone>>

Step(p) == Open(p) \/ Try(p) \/ Check(p) \/ Write(p) \/ Closed(p) \/ Remove(p) \/ Close(p)
Next == \E p \in Procs : Start(p) \/ Stop(p) \/ Kill(p) \/ Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

\* Stores are open, jobs are running
Working == {p \in Procs : pc[p] \in {"work", "closing"}}
AtMostOne == Cardinality(Working) <= 1
\* Whoever tries alone succeeds, whatever was left behind
Free == \A p \in Procs : pc[p] = "refused" => ~alone[p]
\* An attempt comes to an end
Ends == \A p \in Procs : pc[p] = "open" ~> pc[p] \in {"work", "closing", "remove", "close", "off", "refused"}
=============================================================================
