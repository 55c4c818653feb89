------------------------------ MODULE PackageMC ------------------------------
(***************************************************************************)
(* Documents on their way into indexes, over a small schema with one of    *)
(* each kind of things: read from the package, kept in the database, told  *)
(* by the index, handed on to other repositories, read back when the       *)
(* daemon starts again. MODE is a way in which that may go wrong.          *)
(***************************************************************************)
EXTENDS PackageView, TLC

CONSTANTS MODE, TEXTS, KIDS

Small == Node(<<
  Local("S", "trim"),
  One("N", Number),
  One("D", Node(<<Many("P", Leaf("text", <<A("r", "number")>>))>>))>>)

Strings == {""} \cup TEXTS
Pads == {"", " "}
AttrsOf(name, vs) == {<<>>} \cup {<<<<name, v>>>> : v \in vs}
SNodes == [t : {"S"}, a : AttrsOf("xml:lang", {"de"}), x : {<<l, c, "">> : l \in Pads, c \in Strings}, k : {<<>>}]
PNodes == [t : {"P"}, a : AttrsOf("r", {"0", "3"}), x : {<<"", c, "">> : c \in Strings}, k : {<<>>}]
NNodes == [t : {"N"}, a : {<<>>}, x : {<<" ", c, "">> : c \in {"0", "5"}}, k : {<<>>}]
UNodes == [t : {"U"}, a : {<<>>}, x : {<<"", "u", "">>}, k : {<<>>}]
UpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}
DNodes == {[Blank("D") EXCEPT !.k = ps] : ps \in UpTo(PNodes, KIDS)}

Orders == {<<1, 2, 3, 4>>, <<4, 3, 1, 2>>}
Docs == {[Blank("R") EXCEPT !.k = FlattenSeq([i \in 1..4 |-> <<ss, ns, ds, us>>[o[i]]])] :
           ss \in UpTo(SNodes, KIDS), ns \in UpTo(NNodes, 1), ds \in UpTo(DNodes, 1), us \in UpTo(UNodes, 1), o \in Orders}

VARIABLES doc,    \* the package's own document
          kept,   \* what the database has of it
          told,   \* what the index of each repository says; <<>> before it says anything
          steps

Nothing == Blank("-")
Repos == {1, 2}

\* Defects that this must tell from the real thing
Read(d) ==
  LET v == Meant(d, Small) IN
  CASE MODE = "attribute" -> [v EXCEPT !.k[3][1].k[1] = [j \in DOMAIN @ |-> [@[j] EXCEPT !.a = <<"">>]]]
    [] MODE = "untrimmed" -> Said(d, Small)
    [] MODE = "first" -> [v EXCEPT !.k[1] = IF Len(@) > 1 THEN <<@[1]>> ELSE @]
    [] MODE = "reversed" -> [v EXCEPT !.k[3][1].k[1] = Reverse(@)]
    [] OTHER -> v
\* The index is written from what is kept
Write(v) == Emit("R", v, Small)
\* A repository that gets a package from another gets what is kept of it, not what the other's index says
HandOn(v) == IF MODE = "again" THEN Said(Emit("R", v, Small), [Small EXCEPT !.kids[1].en = FALSE, !.kids[1].s.attrs = <<>>]) ELSE v

Init == doc \in Docs /\ kept = Nothing /\ told = [r \in Repos |-> Nothing] /\ steps = 0
Import == kept = Nothing /\ kept' = Read(doc) /\ told' = [told EXCEPT ![1] = Write(Read(doc))] /\ UNCHANGED doc
Pull == kept # Nothing /\ told' = [told EXCEPT ![2] = Write(HandOn(kept))] /\ UNCHANGED <<doc, kept>>
Restart == kept # Nothing /\ kept' = kept /\ UNCHANGED <<doc, told>>
Index == kept # Nothing /\ \E r \in Repos : told[r] # Nothing /\ told' = [told EXCEPT ![r] = Write(kept)] /\ UNCHANGED <<doc, kept>>
Next == steps < 3 /\ steps' = steps + 1 /\ (Import \/ Pull \/ Restart \/ Index)
Spec == Init /\ [][Next]_<<doc, kept, told, steps>>

\* The property
Unchanged == \A r \in Repos : told[r] # Nothing => Said(told[r], Small) = Meant(doc, Small)

\* What clients make of it is what they would make of the document, however often it is passed on
Stable == \A r \in Repos : told[r] # Nothing => Meant(told[r], Small) = Meant(doc, Small)

\* Views keep everything that counts
Faithful ==
  LET v == Meant(doc, Small)
      ds == Named(doc, "D")
      Told(c, w) == c.x[2] = w.x
  IN  /\ \A c \in {doc.k[i] : i \in DOMAIN doc.k} : c.t = "S" /\ c.x[2] # "" => \E j \in DOMAIN v.k[1] : Told(c, v.k[1][j])
      /\ ds # <<>> => \A c \in {ds[1].k[i] : i \in DOMAIN ds[1].k} :
           c.x[2] # "" => \E j \in DOMAIN v.k[3][1].k[1] : Told(c, v.k[3][1].k[1][j]) /\ (c.a # <<>> => v.k[3][1].k[1][j].a[1] = NumberOf(c.a[1][2]))
=============================================================================
