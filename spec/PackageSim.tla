----------------------------- MODULE PackageSim -----------------------------
(* Generates documents: packages' metadata, distributions, components and   *)
(* groups, with whatever the schemas allow, and what is done with them. The *)
(* texts are names of texts here, and how a document is written is a number.*)
EXTENDS PackageView, Json, IOUtils, TLC

PACKAGES == atoi(IOEnv.PACKAGES)   \* documents of packages
ASSETS == atoi(IOEnv.ASSETS)       \* of each other kind
TEXTS == atoi(IOEnv.TEXTS)         \* texts there are
DEPTH == atoi(IOEnv.DEPTH)         \* operations

VARIABLES docs, ops

Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
NUMBERS == <<"0", "1", "2", "7", "10", "100", "2147483648", "9007199254740993", "-1">>
LANGS == <<"", "en", "de", "de", "pt_BR", "zh_CN">>

T(d) == "t" \o ToString(Pick(1..TEXTS))

Value(kind, d) ==
  CASE kind = "number" -> NUMBERS[Pick(1..Len(NUMBERS))]
    [] kind = "release" -> ToString(Pick(1..20))
    [] kind = "lang" -> LANGS[Pick(1..Len(LANGS))]
    [] kind = "gone" -> "@gone" \o ToString(Pick(1..3))
    [] kind \in {"name", "source", "ident"} -> "@" \o kind
    [] OTHER -> IF Chance(8) THEN "" ELSE T(d)

Pad(kind) == IF kind = "trim" /\ Chance(2) THEN "p" \o ToString(Pick(1..4)) ELSE ""

\* "d" only keeps TLC from evaluating these once and for all
RECURSIVE Gen(_, _, _), GenField(_, _)
Gen(tag, s, d) ==
  [t |-> tag,
   a |-> SelectSeq([i \in DOMAIN s.attrs |-> <<s.attrs[i].name,
                      IF Chance(2) /\ s.attrs[i].kind # "release" THEN "" ELSE Value(s.attrs[i].kind, d)>>], LAMBDA p : p[2] # ""),
   x |-> IF s.kind = "node" THEN <<"", "", "">> ELSE <<Pad(s.kind), Value(s.kind, d), Pad(s.kind)>>,
   k |-> FlattenSeq([i \in DOMAIN s.kids |-> GenField(s.kids[i], d)])]

GenField(f, d) ==
  LET n == IF f.must THEN (IF f.many THEN Pick({1, 1, 2, 3}) ELSE 1)
           ELSE IF f.many THEN Pick(0..3) ELSE IF Chance(4) THEN 0 ELSE 1
  IN  [j \in 1..n |-> Gen(f.tag, f.s, d + j)]

Schema(kind) == CASE kind = "package" -> Package [] kind = "dist" -> Distribution [] kind = "comps" -> Component [] OTHER -> Group
Root(kind) == IF kind = "package" THEN "Package" ELSE IF kind = "dist" THEN "PISI" ELSE IF kind = "comps" THEN "Component" ELSE "Group"

\* Components and groups come in numbers
Doc(kind, d) ==
  [kind |-> kind, spelling |-> Pick(0..1000000),
   nodes |-> IF kind \in {"package", "dist"} THEN <<Gen(Root(kind), Schema(kind), d)>>
             ELSE [j \in 1..Pick(0..4) |-> Gen(Root(kind), Schema(kind), d + j)]]

Kind(n) == IF n <= PACKAGES THEN "package" ELSE IF n <= PACKAGES + ASSETS THEN "dist" ELSE IF n <= PACKAGES + 2 * ASSETS THEN "comps" ELSE "groups"
DOCS == PACKAGES + 3 * ASSETS

WAYS == <<"import", "import", "import", "upload", "upload", "clone", "clonefull", "pull", "copy", "restart", "restart", "index", "assets", "assets", "trim", "remove">>
Op(d) == [op |-> WAYS[Pick(1..Len(WAYS))], n |-> Pick(0..999), m |-> Pick(0..999)]

Init == docs = <<>> /\ ops = <<>>
Next ==
  \/ /\ Len(docs) < DOCS
     /\ \E x \in {Doc(Kind(Len(docs) + 1), Len(docs))} : docs' = Append(docs, x) /\ PrintT("DOC " \o ToJson(x))
     /\ UNCHANGED ops
  \/ /\ Len(docs) = DOCS /\ Len(ops) < DEPTH
     /\ \E x \in {Op(Len(ops))} : ops' = Append(ops, x) /\ PrintT("OP " \o ToJson(x))
     /\ UNCHANGED docs
Spec == Init /\ [][Next]_<<docs, ops>>
=============================================================================
