---------------------------- MODULE JobQueueSim ----------------------------
(* Generates what to do with the job store.                                *)
EXTENDS JobQueue, Json, IOUtils

PROFILE == IOEnv.PROFILE
DEPTH == atoi(IOEnv.DEPTH)
Ws == {"s", "a", "b"}
KindOf(w) == IF w = "s" THEN "seq" ELSE "async"
Keep == 100

VARIABLES st, n, hist
Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1

Busy == {w \in Ws : st.work[w] # <<>>}
Free == Ws \ Busy
CanClaim == {w \in Free : FirstFree(st.q[KindOf(w)]) # 0}

Push1(x) == [op |-> "push", kind |-> Pick({"seq", "seq", "async"}), fail |-> Chance(3), hold |-> Chance(3), n |-> 0]
Claim1(S) == LET w == Pick(S) IN [op |-> "claim", kind |-> KindOf(w), w |-> w]
Retire1(S) == [op |-> "retire", w |-> Pick(S), fail |-> Chance(3)]
Reset1(x) == [op |-> "reset", h |-> Pick({"ok", "fail"})]
Read1(x) == [op |-> Pick({"status", "completed", "failed"})]

Basic(used) ==
  LET k == Pick(1..10)
  IN IF k <= 3 THEN Push1(st)
     ELSE IF k <= 6 THEN (IF Free \ used = {} THEN Push1(st) ELSE IF CanClaim \ used # {} THEN Claim1(CanClaim \ used) ELSE Claim1(Free \ used))
     ELSE IF k <= 8 THEN (IF Busy \ used = {} THEN Read1(st) ELSE Retire1(Busy \ used))
     ELSE IF k = 9 THEN Read1(st) ELSE Reset1(st)
Used(o) == IF "w" \in DOMAIN o THEN {o.w} ELSE {}

Many(c, used) == LET f[k \in 0..c] == IF k = 0 THEN [s |-> <<>>, u |-> used]
                                      ELSE LET p == f[k - 1] o == TLCEval(Basic(p.u)) IN [s |-> Append(p.s, o), u |-> p.u \cup Used(o)]
                 IN f[c].s

Par(x) == LET a == TLCEval(Basic({})) IN [op |-> "par", a |-> a, at |-> Pick(1..8), bs |-> Many(Pick(1..3), Used(a))]
Worked(x) == IF Busy # {} /\ Chance(2) THEN Retire1(Busy) ELSE IF CanClaim # {} /\ Chance(2) THEN Claim1(CanClaim) ELSE Basic({})
CrashIn(x) == [op |-> "crash", a |-> Worked(st), at |-> Pick(0..8)]

Big(c) == [op |-> "burst", kind |-> Pick(Kinds), count |-> c]
Drain(x) == [op |-> "drain", w |-> Pick(IF CanClaim = {} THEN Ws ELSE CanClaim), count |-> Pick({3, 20, 60, 99, 100, 101, 130}), fail |-> Pick({0, 1, 2, 3, 10})]

One(x) ==
  LET k == Pick(1..20)
  IN CASE PROFILE = "order" -> IF k <= 9 THEN Basic({}) ELSE IF k <= 17 THEN Par(st) ELSE IF k = 18 THEN [op |-> "restart"]
                               ELSE IF k = 19 /\ Chance(4) THEN Big(Pick({100, 260, 300})) ELSE Read1(st)
       [] PROFILE = "crash" -> IF k <= 13 THEN Worked(st) ELSE IF k <= 16 THEN CrashIn(st) ELSE IF k = 17 THEN [op |-> "restart"]
                               ELSE IF k = 18 /\ Chance(6) THEN Big(Pick({100, 260})) ELSE Read1(st)
       [] PROFILE = "hist" -> IF k <= 6 THEN Basic({}) ELSE IF k <= 8 THEN Big(Pick({5, 30, 110, 130})) ELSE IF k <= 11 THEN Drain(st)
                              ELSE IF k = 12 THEN CrashIn(st) ELSE IF k <= 14 THEN Par(st) ELSE IF k = 15 THEN [op |-> "restart"]
                              ELSE IF k = 16 THEN Reset1(st) ELSE Read1(st)
       [] PROFILE = "auto" -> IF k <= 9 THEN Push1(st) ELSE IF k <= 11 THEN Read1(st) ELSE IF k <= 14 THEN [op |-> "release", j |-> Pick(1..4)]
                              ELSE IF k = 15 THEN Reset1(st) ELSE IF k <= 17 THEN [op |-> "idle"] ELSE IF k = 18 THEN [op |-> "restart"]
                              ELSE IF k = 19 THEN [op |-> "pause", j |-> Pick(1..8)] ELSE [op |-> "crash", at |-> Pick(1..30)]

Times(s, k, c) == [s EXCEPT !.q[k] = @ \o [i \in 1..c |-> <<n + i, FALSE>>]]
Drained(s, k, c) == LET busy == SelectSeq(s.q[k], LAMBDA e : e[2])  free == SelectSeq(s.q[k], LAMBDA e : ~e[2])
                    IN [s EXCEPT !.q[k] = busy \o SubSeq(free, c + 1, Len(free))]

After(s, o) ==
  CASE o.op = "push" -> Push(s, o.kind, n + 1)
    [] o.op = "claim" -> IF s.work[o.w] = <<>> THEN Claim(s, o.kind, o.w) ELSE s
    [] o.op = "retire" -> IF s.work[o.w] # <<>> THEN Retire(s, o.w, o.fail, Keep) ELSE s
    [] o.op = "burst" -> Times(s, o.kind, o.count)
    [] o.op = "drain" -> IF s.work[o.w] = <<>> THEN Drained(s, KindOf(o.w), o.count) ELSE s
    [] o.op \in {"restart", "crash"} -> Restart(s)
    [] OTHER -> s

Init == st = Fresh(Ws) /\ n = 0 /\ hist = <<>>
Next ==
  /\ Len(hist) < DEPTH
  /\ \E o \in {One(st)} :
       /\ n' = n + 310
       /\ st' = IF o.op = "par" THEN FoldLeft(LAMBDA s, b : IF b.op = "push" THEN s ELSE After(s, b), After(st, o.a), o.bs) ELSE After(st, o)
       /\ hist' = Append(hist, o)
       /\ Len(hist') = DEPTH => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<st, n, hist>>
=============================================================================
