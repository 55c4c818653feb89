---------------------------- MODULE PackageTrace ----------------------------
(* Compares what real indexes say with what was meant. Each line is about a *)
(* package, a distribution, the components or the groups: "src" are the     *)
(* nodes of the document itself, "idx" those of an index that is to say it. *)
(* Components and groups come sorted by name; "rank" is the place of each   *)
(* name of the index's in the order of names.                               *)
EXTENDS PackageView, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n

Schema(kind) == CASE kind = "package" -> Package [] kind = "dist" -> Distribution [] kind = "comps" -> Component [] OTHER -> Group

\* A repository without a distribution has an empty one
Count(seq, v) == Cardinality({i \in DOMAIN seq : seq[i] = v})

Judge(l) ==
  LET s == Schema(l.kind)
      src == [i \in DOMAIN l.src |-> Meant(l.src[i], s)]
      idx == [i \in DOMAIN l.idx |-> Said(l.idx[i], s)]
      Lost == {i \in DOMAIN src : Count(src, src[i]) > Count(idx, src[i])}
  IN  IF l.kind \in {"package", "dist"}
      THEN IF Len(src) # 1 \/ Len(idx) # 1 THEN "is there " \o ToString(Len(idx)) \o " times"
           ELSE Differ(src[1], idx[1], s)
      ELSE IF Len(src) # Len(idx) THEN "are " \o ToString(Len(idx)) \o " and not " \o ToString(Len(src))
      ELSE IF Lost # {} THEN
        LET i == CHOOSE i \in Lost : TRUE
            SameName == {j \in DOMAIN idx : idx[j].k[1] = src[i].k[1]}
        IN  IF SameName = {} THEN "Name" ELSE Differ(src[i], idx[CHOOSE j \in SameName : TRUE], s)
      ELSE IF \E i, j \in DOMAIN idx : i < j /\ l.rank[i] > l.rank[j] THEN "order"
      ELSE ""

Init == n = 0
Next ==
  \/ /\ n < Len(Trace)
     /\ n' = n + 1
     /\ LET l == Trace[n + 1] w == Judge(l)
        IN  w = "" \/ PrintT("VIOL " \o ToJson([line |-> n + 1, what |-> l.kind \o ": " \o w]))
  \/ n = Len(Trace) /\ PrintT("DONE " \o ToString(n)) /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
