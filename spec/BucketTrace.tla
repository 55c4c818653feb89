---------------------------- MODULE BucketTrace ----------------------------
(* Recorded operations on the real store, checked against BucketStore.     *)
EXTENDS BucketStore, Json, IOUtils

RawU == JsonDeserialize(IOEnv.UNIVERSE)
Log == ndJsonDeserialize(IOEnv.TRACE)
U == RawU
Obs(l) == {<<x[1], x[2], x[3]>> : x \in {l.st[i] : i \in 1..Len(l.st)}}

VARIABLES pos, obs

Conforms(ideal, s, l, t) ==
  LET o == l.op
      n == IF Numbered(o) /\ Len(l.res) = 1 THEN l.res[1] ELSE 0
      r == Outcome(U, ideal, s, o, n)
      ks == {x[2] : x \in s} \cup {x[2] : x \in t} \cup {n}
  IN /\ r.ok = l.ok
     /\ r.res = l.res
     /\ Numbered(o) => FreeNumber(s, o.p, n)
     /\ Seen(U, ideal, r.cells, ks) = t

\* Is the difference between the two semantics of any matter here?
Init == pos = 0 /\ obs = {}

Next ==
  /\ pos < Len(Log)
  /\ pos' = pos + 1
  /\ LET l == Log[pos + 1]
         t == Obs(l)
     IN /\ obs' = t
        /\ IF l.kind = "init" THEN t # {} => PrintT("VIOL " \o ToJson([line |-> pos + 1, run |-> l.run, flat |-> FALSE]))
           ELSE ~Conforms(TRUE, obs, l, t) =>
                PrintT("VIOL " \o ToJson([line |-> pos + 1, run |-> l.run, flat |-> Conforms(FALSE, obs, l, t)]))
        /\ pos + 1 = Len(Log) => PrintT("DONE " \o ToString(pos + 1))

Spec == Init /\ [][Next]_<<pos, obs>>
=============================================================================
