----------------------------- MODULE BucketSim -----------------------------
(* Generates sequences of operations on the store.                         *)
EXTENDS BucketStore, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)
DEPTH == U.depth

VARIABLES obs, hist

Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
Plain == {p \in DOMAIN U.paths : ~U.paths[p].seq}
Seqs == {p \in DOMAIN U.paths : U.paths[p].seq}

\* Mostly what is there already
Place(s) == IF {x \in s : x[1] \in Plain} # {} /\ Chance(2)
            THEN LET x == Pick({y \in s : y[1] \in Plain}) IN <<x[1], x[2]>>
            ELSE <<Pick(Plain), Pick({k \in 1..Len(U.keys) : U.keys[k].used})>>
Num(s, p) == LET c == Content(s, p) IN
             IF c = {} \/ Chance(4) THEN Pick({0, 1, 7, 44, 45, 46, 127, 254, 255, 256, 257, 65535, 65536, 16777215, 16777216, 2000000000})
             ELSE Pick(c)[1]

Sub(s) == LET w == Place(s)
              k == Pick({"put", "put", "del", "get", "has"})
          IN IF k = "put" THEN [op |-> k, p |-> w[1], k |-> w[2], v |-> Pick(1..20)] ELSE [op |-> k, p |-> w[1], k |-> w[2]]

RECURSIVE Subs(_, _)
Subs(s, n) == IF n = 0 THEN <<>> ELSE Append(Subs(s, n - 1), Sub(s))
\* an update within it, of one bucket
Inner(s) == LET p == Sub(s).p
                subs == [i \in 1..Pick(1..3) |->
                           LET x == Sub(s) IN [x EXCEPT !.p = p, !.k = IF U.keys[x.k].used THEN x.k ELSE Pick({k \in 1..Len(U.keys) : U.keys[k].used})]]
            IN [op |-> "inner", p |-> p, k |-> 1, subs |-> subs, fail |-> Chance(2)]
RECURSIVE Update(_)
Update(s) ==
  LET flat == Subs(s, Pick(1..5))
      at == Pick(1..Len(flat))
      subs == IF Chance(2) THEN flat ELSE SubSeq(flat, 1, at) \o <<Inner(s)>> \o SubSeq(flat, at + 1, Len(flat))
      o == [op |-> "update", subs |-> subs, fail |-> Chance(3), crash |-> Chance(4)]
  IN IF Decided(U, o) THEN o ELSE Update(s)

One(s, k) ==
  CASE k \in {"put", "del", "get", "has"} ->
         LET w == Place(s) IN IF k = "put" THEN [op |-> k, p |-> w[1], k |-> w[2], v |-> Pick(1..20)] ELSE [op |-> k, p |-> w[1], k |-> w[2]]
    [] k \in {"each", "eachdel"} -> [op |-> k, p |-> Pick(DOMAIN U.paths)]
    [] k = "next" -> [op |-> k, p |-> Pick(Seqs)]
    [] k = "append" -> [op |-> k, p |-> Pick(Seqs), v |-> Pick(1..20)]
    [] k = "putseq" -> LET p == Pick(Seqs) IN [op |-> "put", p |-> p, k |-> Num(s, p), v |-> Pick(1..20)]
    [] k = "delseq" -> LET p == Pick(Seqs) IN [op |-> "del", p |-> p, k |-> Num(s, p)]
    [] k = "update" -> Update(s)
    [] OTHER -> [op |-> k]

Mix == <<"put", "put", "put", "put", "put", "del", "del", "get", "has", "each", "eachdel", "next", "append", "append", "append",
         "putseq", "delseq", "delseq", "update", "update", "update", "update", "reopen", "crash">>

NextNumber(s, p) == LET c == Content(s, p) IN IF c = {} THEN 0 ELSE Max({x[1] : x \in c}) + 1

Init == obs = {} /\ hist = <<>>
Next ==
  /\ Len(hist) < DEPTH
  /\ \E k \in {Mix[Pick(1..Len(Mix))]} : \E o \in {One(obs, k)} :
       LET n == IF Numbered(o) THEN NextNumber(obs, o.p) ELSE 0
           r == Outcome(U, U.ideal, obs, o, n)
       IN /\ obs' = Seen(U, U.ideal, r.cells, {x[2] : x \in obs} \cup {n} \cup (IF "k" \in DOMAIN o THEN {o.k} ELSE {}))
          /\ hist' = Append(hist, o)
          /\ Len(hist') = DEPTH => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<obs, hist>>
=============================================================================
