------------------------------ MODULE DeltaSim ------------------------------
(* Generates pairs of packages to make deltas between, and what fails then. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

N == atoi(IOEnv.NUM)
NPATHS == 14     \* paths of files; the harness has names for them
NDIRS == 5
NCONTENTS == 7

VARIABLES n
Pick(S) == RandomElement(S)
Chance(a, b) == Pick(1..b) <= a

\* An entry: kind "-" (none), "f" (file), "s" (symbolic link), "h" (hard link to the first file of that content), "d"
File(v) == [k |-> IF Chance(1, 7) THEN "s" ELSE IF Chance(1, 8) THEN "h" ELSE "f", c |-> Pick(0..NCONTENTS - 1), m |-> Pick(0..3)]
None == [k |-> "-", c |-> 0, m |-> 0]
Tree(share) == [i \in 1..NPATHS |-> IF Chance(share, 10) THEN File(0) ELSE None]
Dirs(share) == [i \in 1..NDIRS |-> IF Chance(share, 10) THEN [k |-> "d", c |-> 0, m |-> Pick(0..3)] ELSE None]

\* How the new tree comes of the old one
Next1(t, how) ==
  [i \in DOMAIN t |->
    CASE how = "same" -> t[i]
      [] how = "new" -> IF Chance(1, 2) THEN File(0) ELSE None
      [] how = "few" -> IF Chance(1, 5) THEN (IF Chance(1, 3) THEN None ELSE File(0)) ELSE t[i]
      [] how = "move" -> t[(i % Len(t)) + 1]
      [] how = "add" -> IF t[i].k = "-" /\ Chance(1, 4) THEN File(0) ELSE t[i]
      [] how = "drop" -> IF Chance(1, 3) THEN None ELSE t[i]
      [] how = "mode" -> [t[i] EXCEPT !.m = (@ + 1) % 4]
      [] how = "fresh" -> IF t[i].k = "-" THEN t[i] ELSE [t[i] EXCEPT !.k = "f", !.c = 100 + i]]
HOWS == <<"same", "new", "new", "few", "few", "few", "move", "add", "drop", "mode", "fresh">>

Meta(z) == [rel |-> Pick({1, 2, 9, 10}), name |-> IF Chance(1, 25) THEN 2 ELSE 1, dist |-> IF Chance(1, 25) THEN 2 ELSE 1, arch |-> IF Chance(1, 25) THEN 2 ELSE 1,
         ver |-> Pick(1..3), comar |-> Pick(0..2), slash |-> Chance(1, 3), shuffle |-> Pick(0..3)]
Later(m) == IF Chance(1, 12) THEN m.rel ELSE IF Chance(1, 15) THEN m.rel - 1 ELSE m.rel + Pick({1, 2, 90})

Pair(z) == LET t == Tree(Pick({0, 3, 5, 8}))  ds == Dirs(Pick({0, 4, 8, 10}))  how == HOWS[Pick(1..Len(HOWS))]  m == Meta(z)
            e == Dirs(5)
        IN [old |-> [meta |-> m, tree |-> t, dirs |-> ds],
            new |-> [meta |-> [Meta(z + 1) EXCEPT !.rel = Later(m), !.name = IF Chance(1, 60) THEN 3 - m.name ELSE m.name,
                                           !.dist = IF Chance(1, 60) THEN 3 - m.dist ELSE m.dist, !.arch = IF Chance(1, 60) THEN 3 - m.arch ELSE m.arch],
                     tree |-> Next1(t, how), dirs |-> IF Chance(1, 2) THEN ds ELSE e],
            twice |-> Chance(1, 6),
            fault |-> IF Chance(2, 5) THEN <<"fail", "fail", "full", "link", "failedlink">>[Pick(1..5)] ELSE "",
            at |-> Pick(0..32)]

Init == n = 0
Next == /\ n < N
        /\ n' = n + 1
        /\ PrintT("SCRIPT " \o ToJson(Pair(n)))
Spec == Init /\ [][Next]_n
=============================================================================
