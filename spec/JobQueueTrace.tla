--------------------------- MODULE JobQueueTrace ---------------------------
(***************************************************************************)
(* Recorded histories of the real job store and its workers, checked        *)
(* against JobQueue. Operations that overlapped are given as a call and a   *)
(* return; each has to have taken effect at one instant in between (Lin), a  *)
(* status query for each queue (LinStatus).                                *)
(* The workers of the real processor are only seen by what they bring       *)
(* about: they claim and retire on their own in between the lines.          *)
(*                                                                         *)
(* A run is accepted if some behaviour of JobQueue explains all its lines.  *)
(***************************************************************************)
EXTENDS JobQueue, Json, IOUtils, FiniteSetsExt

Log == ndJsonDeserialize(IOEnv.TRACE)
Explain == "EXPLAIN" \in DOMAIN IOEnv
Keep == 100
N == Len(Log)
Starts == {i \in 1..N : Log[i].ev = "init"}

VARIABLES pos, st, pend, on, fails, auto, held
vars == <<pos, st, pend, on, fails, auto, held>>

Set(s) == {s[i] : i \in DOMAIN s}
Pairs(q) == [i \in 1..Len(q) |-> <<q[i][1], IF q[i][2] THEN 1 ELSE 0>>]
Sorted(s) == SetToSortSeq({<<s[i]>> : i \in DOMAIN s}, LAMBDA a, b : a[1] < b[1])

\* [can, st, res] of an operation that takes effect now
Do(o) ==
  LET R(s, r) == [can |-> TRUE, st |-> s, res |-> r, on |-> on]
  IN CASE o.op = "push" -> R(Push(st, o.kind, o.n), <<>>)
       [] o.op = "claim" -> R(Claim(st, o.kind, o.w), <<<<Claimed(st, o.kind)>>>>)
       [] o.op = "retire" -> R(Retire(st, o.w, o.fail, Keep), <<>>)
       [] o.op = "status" -> R(st, Pairs(Active(st)))
       [] o.op = "completed" -> R(st, Sorted(st.hist["ok"]))
       [] o.op = "failed" -> R(st, Sorted(st.hist["fail"]))
       [] o.op = "reset" -> R(Reset(st, o.h), <<>>)
       \* the processor has come to rest
       [] o.op = "close" -> [can |-> \A w \in auto : st.work[w] = <<>>, st |-> st, res |-> <<>>, on |-> FALSE]

Line == Log[pos + 1]
More == pos < N /\ (pos + 1 \in Starts => FALSE)

Init == /\ \E i \in Starts :
             /\ pos = i
             /\ auto = Set(Log[i].auto)
             /\ st = Fresh(Set(Log[i].auto) \cup Set(Log[i].workers))
        /\ pend = <<>> /\ on = TRUE /\ fails = {} /\ held = {}

Fails(o) == IF o.op = "push" /\ "fail" \in DOMAIN o /\ o.fail THEN fails \cup {o.n} ELSE fails

Drop(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]

Op == /\ More /\ Line.ev = "op"
      /\ LET r == Do(Line.o) IN r.can /\ r.res = Line.res /\ st' = r.st /\ on' = r.on
      /\ fails' = Fails(Line.o) /\ pos' = pos + 1 /\ UNCHANGED <<pend, auto, held>>

Call == /\ More /\ Line.ev = "call"
        /\ pend' = (Line.id :> [o |-> Line.o, done |-> FALSE, res |-> <<>>, seen |-> <<>>]) @@ pend
        /\ fails' = Fails(Line.o) /\ pos' = pos + 1 /\ UNCHANGED <<st, on, auto, held>>

Lin == \E i \in DOMAIN pend :
         /\ ~pend[i].done /\ pend[i].o.op # "status"
         /\ LET r == Do(pend[i].o) IN r.can /\ st' = r.st /\ on' = r.on /\ pend' = [pend EXCEPT ![i] = [@ EXCEPT !.done = TRUE, !.res = r.res]]
         /\ UNCHANGED <<pos, fails, auto, held>>

\* The two queues need not be looked at in the same instant
LinStatus == \E i \in DOMAIN pend : \E k \in Kinds :
         /\ ~pend[i].done /\ pend[i].o.op = "status" /\ k \notin DOMAIN pend[i].seen
         /\ LET seen == (k :> Pairs(st.q[k])) @@ pend[i].seen
            IN pend' = [pend EXCEPT ![i] = IF DOMAIN seen = Kinds THEN [@ EXCEPT !.done = TRUE, !.res = seen["seq"] \o seen["async"], !.seen = <<>>]
                                           ELSE [@ EXCEPT !.seen = seen]]
         /\ UNCHANGED <<pos, st, on, fails, auto, held>>

Ret == /\ More /\ Line.ev = "ret"
       /\ Line.id \in DOMAIN pend /\ pend[Line.id].done /\ pend[Line.id].res = Line.res
       /\ pend' = Drop(pend, Line.id) /\ pos' = pos + 1 /\ UNCHANGED <<st, on, fails, auto, held>>

\* The process dies: what is under way may have taken effect, or not
Crash == /\ More /\ Line.ev = "crash"
         /\ pend' = <<>> /\ on' = FALSE /\ pos' = pos + 1 /\ UNCHANGED <<st, fails, auto, held>>
Start == /\ More /\ Line.ev = "start"
         /\ st' = Restart(st) /\ on' = TRUE /\ held' = {} /\ pos' = pos + 1 /\ UNCHANGED <<pend, fails, auto>>

\* The job is seen to be executed
Touch == /\ More /\ Line.ev = "touch"
         /\ on /\ \E w \in auto : st.work[w] # <<>> /\ st.work[w][2] = Line.n
         /\ held' = IF Line.block THEN held \cup {Line.n} ELSE held
         /\ pos' = pos + 1 /\ UNCHANGED <<st, pend, on, fails, auto>>
Unblock == /\ More /\ Line.ev = "unblock" /\ held' = held \ {Line.n} /\ pos' = pos + 1 /\ UNCHANGED <<st, pend, on, fails, auto>>

Order == [seq |-> 0, a1 |-> 1, a2 |-> 2]
KindOf(w) == IF w = "seq" THEN "seq" ELSE "async"
\* No worker can do any more, those at the jobs in held are held up there
Idle == /\ More /\ Line.ev = "idle"
        /\ \A w \in auto : IF st.work[w] = <<>> THEN FirstFree(st.q[KindOf(w)]) = 0 ELSE st.work[w][2] \in held
        /\ pos' = pos + 1 /\ UNCHANGED <<st, pend, on, fails, auto, held>>

(* What the workers do commutes with everything but what observes it: they  *)
(* act as late as possible. Equal workers, and the order of the outcomes    *)
(* (of which there are too few to be dropped), need not be told apart.      *)
Observer == \/ More /\ Line.ev \in {"touch", "idle", "crash"}
            \/ \E i \in DOMAIN pend : ~pend[i].done /\ pend[i].o.op # "push"
Awake == {w \in auto : on /\ st.work[w] = <<>> /\ FirstFree(st.q[KindOf(w)]) # 0}
ClaimAuto == /\ Observer
             /\ \E w \in Awake : /\ \A v \in Awake : KindOf(v) = KindOf(w) => Order[w] <= Order[v]
                                 /\ st' = Claim(st, KindOf(w), w) /\ UNCHANGED <<pos, pend, on, fails, auto, held>>
Ordered(s) == [s EXCEPT !.hist = [h \in DOMAIN s.hist |-> SetToSortSeq(Set(s.hist[h]), <)]]
RetireAuto == /\ Observer
              /\ \E w \in auto : /\ on /\ st.work[w] # <<>> /\ st.work[w][2] \notin held
                                  /\ st' = Ordered(Retire(st, w, st.work[w][2] \in fails, Keep)) /\ UNCHANGED <<pos, pend, on, fails, auto, held>>

At(p) == /\ Explain => PrintT("AT " \o ToString(p) \o " " \o ToJson([st |-> st, pend |-> [i \in 1..Cardinality(DOMAIN pend) |-> 0]]))
         /\ (p = N \/ p + 1 \in Starts) => PrintT("OK " \o ToString(Log[p].run))

Next == \/ (Op \/ Call \/ Ret \/ Crash \/ Start \/ Touch \/ Unblock \/ Idle) /\ At(pos')
        \/ Lin \/ LinStatus \/ ClaimAuto \/ RetireAuto
Spec == Init /\ [][Next]_vars
=============================================================================
