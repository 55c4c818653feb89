------------------------------ MODULE DaemonMC ------------------------------
(***************************************************************************)
(* Every behaviour of Daemon over a small universe: requests by clients, a *)
(* worker that claims, executes and retires, resets, and daemons that are  *)
(* stopped or killed. Killed between execution and retirement, a job is    *)
(* executed again; with CUT, that is explored too.                         *)
(***************************************************************************)
EXTENDS Daemon

CONSTANTS NAMES, KINDS, MAX, RESETS, CUT, LIFO

VARIABLES d,      \* the daemon's records
          acc,    \* jobs accepted, ever
          ex,     \* outcomes, ever: [id, ok, op]
          run     \* the job that is claimed (0: none)
vars == <<d, acc, ex, run>>

U == [files |-> EmptyFun, bysha |-> EmptyFun, dist |-> EmptyFun, comps |-> EmptyFun, groups |-> EmptyFun]

Ops == UNION {CASE k \in {"create", "delete", "index", "deltarepo"} -> {[op |-> k, repo |-> n] : n \in NAMES}
                [] k = "clone" -> {[op |-> k, repo |-> a, target |-> b, full |-> f] : a, b \in NAMES, f \in BOOLEAN}
                [] k = "pull" -> {[op |-> k, repo |-> a, target |-> b] : a, b \in NAMES}
                : k \in KINDS}

\* Jobs are told apart by what takes the place of their description here
Job(o, n, g) == [op |-> o, desc |-> n, grp |-> g]

Init == d = Daemon0(Init0) /\ acc = <<>> /\ ex = <<>> /\ run = 0

Request == /\ Len(acc) < MAX
           /\ \E o \in Ops :
                LET j == Job(o, Len(acc) + 1, Len(acc) + 1)
                IN acc' = Append(acc, j) /\ d' = Accept(d, <<j>>)
           /\ UNCHANGED <<ex, run>>
Both == /\ Len(acc) + 1 < MAX
        /\ \E o, p \in Ops :
             LET n == Len(acc) js == <<Job(o, n + 1, n + 1), Job(p, n + 2, n + 1)>>
             IN acc' = acc \o js /\ d' = Accept(d, js)
        /\ UNCHANGED <<ex, run>>
Claim == /\ run = 0 /\ d.q # <<>>
         /\ \E k \in IF LIFO THEN {Len(d.q)} ELSE NextUp(d) : run' = d.q[k].desc
         /\ UNCHANGED <<d, acc, ex>>
At == CHOOSE k \in 1..Len(d.q) : d.q[k].desc = run
Retire == /\ run # 0
          /\ \E ok \in BOOLEAN :
               /\ Outcomes(U, d, At, ok) # {}
               /\ d' = Finish(U, d, At, ok, run)
               /\ ex' = Append(ex, [id |-> run, ok |-> ok, op |-> d.q[At].op])
          /\ run' = 0 /\ UNCHANGED acc
\* What was executed has happened, and will happen again
Cut == /\ CUT /\ run # 0
       /\ \E ok \in BOOLEAN :
            /\ Outcomes(U, d, At, ok) # {}
            /\ d' = [d EXCEPT !.sts = Outcomes(U, d, At, ok)]
       /\ run' = 0 /\ UNCHANGED <<acc, ex>>
Kill == run # 0 /\ run' = 0 /\ UNCHANGED <<d, acc, ex>>
Reset == /\ RESETS
         /\ \E f \in BOOLEAN : d' = IF f THEN ResetFailed(d) ELSE ResetDone(d)
         /\ UNCHANGED <<acc, ex, run>>

Next == Request \/ Both \/ Claim \/ Retire \/ Cut \/ Kill \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Claim) /\ SF_vars(Retire)

Ids(q) == {q[k].desc : k \in 1..Len(q)}
\* Every accepted job is waiting or has one outcome, in the order accepted
Exact == /\ Ids(acc) = Ids(d.q) \cup {ex[k].id : k \in 1..Len(ex)}
         /\ Len(acc) = Len(d.q) + Len(ex)
         /\ \A k \in 1..Len(d.q) : acc[d.q[k].desc] = d.q[k]
Ordered == \A j, k \in 1..Len(ex) : j < k => acc[ex[j].id].grp <= acc[ex[k].id].grp

RECURSIVE Fold(_, _)
Fold(S, x) == IF x = <<>> THEN S
              ELSE Fold({r.st : r \in {y \in UNION {Perform(U, s, Head(x).op) : s \in S} : y.ok = Head(x).ok}}, Tail(x))
\* The repositories are what the jobs done, one after another, make of them
Serial == ~CUT => d.sts = Fold({Init0}, ex)
Some == d.sts # {}

Recorded == /\ ~RESETS => Len(d.done) + Len(d.failed) = Len(ex)
            /\ \A k \in 1..Len(d.done) : \E e \in 1..Len(ex) : ex[e].id = d.done[k] /\ ex[e].ok
            /\ \A k \in 1..Len(d.failed) : \E e \in 1..Len(ex) : ex[e].id = d.failed[k] /\ ~ex[e].ok

\* Whatever is accepted is done in the end (unless the daemon is killed again and again)
AllDone == \A n \in 1..MAX : (Len(acc) >= n) ~> (\E k \in 1..Len(ex) : ex[k].id = n)
=============================================================================
