---------------------------- MODULE BucketStore ----------------------------
(***************************************************************************)
(* The key-value store of ferryd (libdb): buckets in buckets, each with    *)
(* objects by key.                                                         *)
(*                                                                         *)
(* u.paths : path -> [seq, names]  a path through buckets; objects are     *)
(*           numbered by the store in those that are seq                   *)
(* u.keys  : sequence of [reserved, used], in byte order: keys are numbers here *)
(* u.enc   : path -> key -> the flat key that libdb makes of both          *)
(*                                                                         *)
(* The state is a set of cells <<identity, value>>. Two semantics are      *)
(* given by what identifies an object:                                     *)
(*   ideal  <<path, key>>, which is what the users of the store rely on    *)
(*   flat   the flat key, which is how libdb does it. The two differ where *)
(*          different paths and keys give the same flat key.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

\* A key that nobody gave to the store, were it to appear there, is its own cell
Cell(u, ideal, p, k) == IF ~u.paths[p].seq /\ k \notin 1..Len(u.keys) THEN <<"?", p, ToString(k)>> ELSE IF ideal \/ u.paths[p].seq THEN <<p, ToString(k)>> ELSE <<"", u.enc[p][k]>>

KeysOf(u, obs, p) == IF u.paths[p].seq THEN {x[2] : x \in {y \in obs : y[1] = p}} ELSE 1..Len(u.keys)

Cells(u, ideal, obs) == {<<Cell(u, ideal, x[1], x[2]), x[3]>> : x \in obs}

\* Everything to be seen, with keys ks in the numbered buckets
Seen(u, ideal, cells, ks) ==
  {<<p, k, v>> \in
     UNION {UNION {{<<p, k, c[2]>> : c \in {d \in cells : d[1] = Cell(u, ideal, p, k)}}
                   : k \in (IF u.paths[p].seq THEN ks ELSE 1..Len(u.keys))} : p \in DOMAIN u.paths} : TRUE}

Put(cells, c, v) == {x \in cells : x[1] # c} \cup {<<c, v>>}
Drop(cells, c) == {x \in cells : x[1] # c}

Reserved(u, p, k) == ~u.paths[p].seq /\ k \in 1..Len(u.keys) /\ u.keys[k].reserved

Content(obs, p) == {<<x[2], x[3]>> : x \in {y \in obs : y[1] = p}}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1])
Val(obs, p, k) == LET c == {x \in obs : x[1] = p /\ x[2] = k} IN IF c = {} THEN -1 ELSE (CHOOSE x \in c : TRUE)[3]

Reads == {"get", "has"}
\* The first of the operations of an update that fails, or 0
FirstBad(u, subs) ==
  LET bad == {i \in 1..Len(subs) : subs[i].op \in {"put", "del"} /\ Reserved(u, subs[i].p, subs[i].k)}
  IN IF bad = {} THEN 0 ELSE Min(bad)

\* An update within an update, whose failure the outer one does not make its own
InnerDone(u, o) == IF FirstBad(u, o.subs) = 0 THEN o.subs ELSE SubSeq(o.subs, 1, FirstBad(u, o.subs) - 1)
InnerOk(u, o) == ~o.fail /\ FirstBad(u, o.subs) = 0

ApplyOne(u, ideal, cells, o) ==
  CASE o.op = "put" -> Put(cells, Cell(u, ideal, o.p, o.k), o.v)
    [] o.op = "del" -> Drop(cells, Cell(u, ideal, o.p, o.k))
    [] OTHER -> cells
Apply(u, ideal, cells, o) ==
  IF o.op = "inner" THEN (IF InnerOk(u, o) THEN FoldLeft(LAMBDA c, x : ApplyOne(u, ideal, c, x), cells, o.subs) ELSE cells)
  ELSE ApplyOne(u, ideal, cells, o)

ReadOne(obs, o) == IF o.op = "get" THEN <<Val(obs, o.p, o.k)>>
                   ELSE IF o.op = "has" THEN <<IF Val(obs, o.p, o.k) = -1 THEN 0 ELSE 1>> ELSE <<>>
Read(u, obs, o) ==
  IF o.op = "inner" THEN FlattenSeq([i \in 1..Len(InnerDone(u, o)) |-> ReadOne(obs, InnerDone(u, o)[i])]) \o <<IF InnerOk(u, o) THEN 1 ELSE 0>>
  ELSE ReadOne(obs, o)

(* Whether an inner update that succeeds is there at once, or together     *)
(* with the outer one, is not said: not when the outer one fails, and not  *)
(* where the outer one reads or writes the same objects (however they are  *)
(* identified).                                                            *)
Effects(u, o) == IF o.op = "inner" THEN {Cell(u, FALSE, x.p, x.k) : x \in {o.subs[i] : i \in DOMAIN o.subs}} ELSE {Cell(u, FALSE, o.p, o.k)}
Writes(u, o) == {Cell(u, FALSE, x.p, x.k) : x \in {y \in {o.subs[i] : i \in DOMAIN o.subs} : y.op \notin Reads}}
Decided(u, o) ==
  LET good == {i \in DOMAIN o.subs : o.subs[i].op = "inner" /\ InnerOk(u, o.subs[i])}
  IN good # {} =>
       /\ ~o.fail /\ ~o.crash /\ FirstBad(u, o.subs) = 0
       /\ \A i \in good : \A j \in DOMAIN o.subs \ {i} : Writes(u, o.subs[i]) \cap Effects(u, o.subs[j]) = {}

(* What may come of operation o when obs is to be seen: [ok, res, cells].  *)
(* n is the sequence number that the store chose, where it had to.         *)
Outcome(u, ideal, obs, o, n) ==
  LET cs == Cells(u, ideal, obs)
      R(ok, res, c) == [ok |-> ok, res |-> res, cells |-> c]
  IN CASE o.op \in {"put", "del"} ->
            IF Reserved(u, o.p, o.k) THEN R(FALSE, <<>>, cs) ELSE R(TRUE, <<>>, Apply(u, ideal, cs, o))
       [] o.op \in Reads -> R(TRUE, Read(u, obs, o), cs)
       [] o.op = "each" -> R(TRUE, Sorted(Content(obs, o.p)), cs)
       \* deleting what is iterated over does not disturb the iteration
       [] o.op = "eachdel" -> R(TRUE, Sorted(Content(obs, o.p)),
            {x \in cs : x[1] \notin {Cell(u, ideal, o.p, y[1]) : y \in {z \in Content(obs, o.p) : ~Reserved(u, o.p, z[1])}}})
       [] o.op = "next" -> R(TRUE, <<n>>, cs)
       [] o.op = "append" -> R(TRUE, <<n>>, Put(cs, Cell(u, ideal, o.p, n), o.v))
       \* what is read during an update is what was there before
       [] o.op = "update" ->
            LET b == FirstBad(u, o.subs)
                done == IF b = 0 THEN o.subs ELSE SubSeq(o.subs, 1, b - 1)
                res == FlattenSeq([i \in 1..Len(done) |-> Read(u, obs, done[i])])
            \* a process that dies before the end of the update leaves nothing of it
            IN IF o.fail \/ o.crash \/ b # 0 THEN R(FALSE, res, cs)
               ELSE R(TRUE, res, FoldLeft(LAMBDA c, x : Apply(u, ideal, c, x), cs, o.subs))
       [] OTHER -> R(TRUE, <<>>, cs)

\* The numbers that the store may give out next
FreeNumber(obs, p, n) == n >= 0 /\ \A x \in Content(obs, p) : x[1] < n

Numbered(o) == o.op \in {"next", "append"}
=============================================================================
