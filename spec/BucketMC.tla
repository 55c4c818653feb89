------------------------------ MODULE BucketMC ------------------------------
(* BucketStore explored completely for a few buckets and keys. Two stores   *)
(* take the same operations: one by the ideal semantics, one by the flat    *)
(* keys that libdb makes. With names that cannot be mistaken they agree;    *)
(* with Ambiguous ones they do not (known finding bucket-alias).            *)
EXTENDS BucketStore

CONSTANTS Ambiguous, Values

\* ["a"] ["ab"] ["a","b"], or ["a"] ["a-b"]; keys "k" and "b-k"
U == [paths |-> [p |-> [seq |-> FALSE], q |-> [seq |-> FALSE], r |-> [seq |-> FALSE], s |-> [seq |-> TRUE]],
      keys |-> <<[reserved |-> FALSE], [reserved |-> FALSE], [reserved |-> TRUE]>>,
      enc |-> [p |-> <<"1 a-b-k", "1 a-k", "1 a-x">>,
               q |-> IF Ambiguous THEN <<"1 a-b-b-k", "1 a-b-k", "1 a-b-x">> ELSE <<"1 ab-b-k", "1 ab-k", "1 ab-x">>,
               r |-> <<"2 a-b-b-k", "2 a-b-k", "2 a-b-x">>]]
MaxSeq == 1

VARIABLES ideal, flat, last

Plain == {"p", "q", "r"}
Subs == UNION {{[op |-> "put", p |-> p, k |-> k, v |-> v] : v \in Values} \cup {[op |-> "del", p |-> p, k |-> k]} : p \in Plain, k \in 1..3}
Ops == Subs \cup {[op |-> "eachdel", p |-> p] : p \in DOMAIN U.paths}
       \cup {[op |-> "append", p |-> "s", v |-> v] : v \in Values}
       \cup {[op |-> "del", p |-> "s", k |-> k] : k \in 0..MaxSeq}
       \cup {[op |-> "update", subs |-> <<x, y>>, fail |-> f, crash |-> FALSE] : x \in Subs, y \in Subs, f \in BOOLEAN}
       \cup {o \in {[op |-> "update", subs |-> <<x, [op |-> "inner", p |-> y.p, k |-> 1, subs |-> <<y>>, fail |-> g]>>, fail |-> f, crash |-> FALSE] :
                     x \in Subs, y \in Subs, f \in BOOLEAN, g \in BOOLEAN} : Decided(U, o)}

All == 1..3 \cup 0..MaxSeq
Obs(i, cs) == Seen(U, i, cs, All)

Init == ideal = {} /\ flat = {} /\ last = [op |-> "init"]
Next == \E o \in Ops :
  LET seqn == Content(Obs(TRUE, ideal), "s")
      n == IF seqn = {} THEN 0 ELSE Max({x[1] : x \in seqn}) + 1
      a == Outcome(U, TRUE, Obs(TRUE, ideal), o, n)
      b == Outcome(U, FALSE, Obs(FALSE, flat), o, n)
  IN /\ Numbered(o) => n <= MaxSeq
     /\ ideal' = a.cells
     /\ flat' = b.cells
     /\ last' = o
Spec == Init /\ [][Next]_<<ideal, flat, last>>
View == <<ideal, flat>>

Agree == Obs(TRUE, ideal) = Obs(FALSE, flat)
OneValue == \A x, y \in Obs(TRUE, ideal) : x[1] = y[1] /\ x[2] = y[2] => x = y

Touched(o) == IF o.op = "update" THEN {o.subs[i].p : i \in DOMAIN o.subs} ELSE {o.p}
Isolated == [][\A p \in DOMAIN U.paths \ Touched(last') : Content(Obs(TRUE, ideal), p) = Content(Obs(TRUE, ideal'), p)]_<<ideal, flat, last>>
AllOrNothing == [][last'.op = "update" /\ (last'.fail \/ FirstBad(U, last'.subs) # 0) => ideal' = ideal]_<<ideal, flat, last>>
InnerNothing == [][last'.op = "update" /\ Len(last'.subs) = 2 /\ last'.subs[2].op = "inner" /\ ~InnerOk(U, last'.subs[2]) /\ ~last'.fail /\ FirstBad(U, last'.subs) = 0
                   => ideal' = Apply(U, TRUE, ideal, last'.subs[1])]_<<ideal, flat, last>>
Fresh == [][last'.op = "append" =>
              \E x \in Content(Obs(TRUE, ideal'), "s") : x[2] = last'.v /\ \A y \in Content(Obs(TRUE, ideal), "s") : y[1] < x[1]]_<<ideal, flat, last>>
=============================================================================
