----------------------------- MODULE PackageView -----------------------------
(***************************************************************************)
(* What a repository's index says of a package, a distribution, components *)
(* and groups: what their own documents say of them, and nothing else.     *)
(*                                                                         *)
(* A document is a tree of nodes: t its tag, a its attributes (pairs of    *)
(* name and value), x its text (white space before, the text proper, white *)
(* space after), k the nodes within. What counts of it is its view through *)
(* a schema; the order of different elements, elements that are not in the *)
(* schema, and how it is all written do not count.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Blank(t) == [t |-> t, a |-> <<>>, x |-> <<"", "", "">>, k |-> <<>>]

\* ---- schemas ----

A(name, kind) == [name |-> name, kind |-> kind]
Lang == <<A("xml:lang", "lang")>>

Leaf(kind, attrs) == [kind |-> kind, attrs |-> attrs, kids |-> <<>>]
Node(kids) == [kind |-> "node", attrs |-> <<>>, kids |-> kids]

\* One such element, or any number of them
One(tag, s) == [tag |-> tag, many |-> FALSE, en |-> FALSE, must |-> FALSE, s |-> s]
Many(tag, s) == [One(tag, s) EXCEPT !.many = TRUE]
\* Any number, the first of which is in English unless it says otherwise
Local(tag, kind) == [Many(tag, Leaf(kind, Lang)) EXCEPT !.en = TRUE]
Must(f) == [f EXCEPT !.must = TRUE]

Text == Leaf("text", <<>>)
Number == Leaf("number", <<>>)
Ident == Leaf("ident", <<>>)

Person == Node(<<One("Name", Text), One("Email", Text)>>)

Dependency == Leaf("text", <<A("releaseFrom", "number"), A("releaseTo", "number"), A("release", "number"),
                             A("versionFrom", "text"), A("versionTo", "text"), A("version", "text")>>)

Update ==
  [Node(<<One("Date", Text), Must(One("Version", Ident)), One("Comment", Text), One("Name", Text), One("Email", Text),
          One("Requires", Node(<<Many("Action", Leaf("text", <<A("package", "text")>>))>>))>>)
   EXCEPT !.attrs = <<A("release", "release"), A("type", "text")>>]

Package == Node(<<
  Must(One("Name", Leaf("name", <<>>))),
  Local("Summary", "trim"),
  Local("Description", "trim"),
  One("IsA", Text),
  One("PartOf", Text),
  Many("License", Text),
  One("RuntimeDependencies", Node(<<Many("Dependency", Dependency)>>)),
  One("Conflicts", Node(<<Many("Package", Text)>>)),
  One("Replaces", Node(<<Many("Package", Text)>>)),
  One("Provides", Node(<<Many("COMAR", Leaf("text", <<A("script", "text")>>)), Many("PkgConfig", Text), Many("PkgConfig32", Text)>>)),
  Must(One("History", Node(<<Must(Many("Update", Update))>>))),
  One("BuildHost", Text),
  One("Distribution", Text),
  Must(One("DistributionRelease", Ident)),
  Must(One("Architecture", Ident)),
  One("InstalledSize", Number),
  One("PackageFormat", Text),
  Must(One("Source", Node(<<Must(One("Name", Leaf("source", <<>>))), One("Homepage", Text), One("Packager", Person)>>)))>>)

Distribution == Node(<<
  One("SourceName", Text),
  Many("Description", Leaf("text", Lang)),
  One("Version", Text),
  One("Type", Text),
  One("BinaryName", Text),
  One("Obsoletes", Node(<<Many("Package", Leaf("gone", <<>>))>>))>>)

Component == Node(<<
  Must(One("Name", Leaf("name", <<>>))),
  Local("LocalName", "text"),
  Local("Summary", "text"),
  Local("Description", "text"),
  One("Group", Text),
  One("Maintainer", Person)>>)

Group == Node(<<
  Must(One("Name", Leaf("name", <<>>))),
  Local("LocalName", "text"),
  One("Icon", Text)>>)

\* ---- views ----

Whole(x) == x[1] \o x[2] \o x[3]
NumberOf(v) == IF v = "0" THEN "" ELSE v   \* none is as good as 0

TextView(x, kind) ==
  CASE kind = "node" -> ""
    [] kind = "trim" -> x[2]
    [] kind = "number" -> NumberOf(x[2])
    [] OTHER -> Whole(x)

AttrView(n, at) ==
  LET vs == SelectSeq(n.a, LAMBDA p : p[1] = at.name)
      v == IF vs = <<>> THEN "" ELSE vs[1][2]
  IN  IF at.kind \in {"number", "release"} THEN NumberOf(v) ELSE v

Named(n, tag) == SelectSeq(n.k, LAMBDA c : c.t = tag)

\* One of many that says nothing does not count
RECURSIVE Empty(_)
Empty(v) == v.x = "" /\ (\A i \in DOMAIN v.a : v.a[i] = "") /\ \A i \in DOMAIN v.k : \A j \in DOMAIN v.k[i] : Empty(v.k[i][j])

\* clean: as the document means it; otherwise as the index says it
RECURSIVE View(_, _, _)
View(n, s, clean) ==
  [a |-> [i \in DOMAIN s.attrs |-> AttrView(n, s.attrs[i])],
   x |-> IF clean \/ s.kind # "trim" THEN TextView(n.x, s.kind) ELSE Whole(n.x),
   k |-> [i \in DOMAIN s.kids |->
            LET f == s.kids[i]
                ns == Named(n, f.tag)
                English(c) == IF c.a[1] = "" THEN [c EXCEPT !.a[1] = "en"] ELSE c
            IN  IF ~f.many THEN <<View(IF ns = <<>> THEN Blank(f.tag) ELSE ns[1], f.s, clean)>>
                ELSE SelectSeq([j \in DOMAIN ns |-> LET c == View(ns[j], f.s, clean) IN IF clean /\ f.en /\ j = 1 THEN English(c) ELSE c],
                               LAMBDA c : ~Empty(c))]]

Meant(n, s) == View(n, s, TRUE)
Said(n, s) == View(n, s, FALSE)

\* Where two views differ first
RECURSIVE Differ(_, _, _)
Differ(v, w, s) ==
  IF v = w THEN ""
  ELSE IF v.a # w.a THEN "@" \o s.attrs[CHOOSE i \in DOMAIN v.a : v.a[i] # w.a[i]].name
  ELSE IF v.x # w.x THEN "text"
  ELSE LET i == CHOOSE i \in DOMAIN v.k : v.k[i] # w.k[i] /\ \A h \in 1..(i - 1) : v.k[h] = w.k[h]
           f == s.kids[i]
       IN  IF Len(v.k[i]) # Len(w.k[i]) THEN f.tag \o " number"
           ELSE LET j == CHOOSE j \in DOMAIN v.k[i] : v.k[i][j] # w.k[i][j] IN f.tag \o " " \o Differ(v.k[i][j], w.k[i][j], f.s)

\* ---- an index that says it ----

\* The text of a view is the whole text of its node, as nobody trims it any more
RECURSIVE Emit(_, _, _)
Emit(tag, v, s) ==
  LET Kept(c) == c.a # <<>> \/ c.x # <<"", "", "">> \/ c.k # <<>>
      Field(i) == LET f == s.kids[i]
                      ns == [j \in DOMAIN v.k[i] |-> Emit(f.tag, v.k[i][j], f.s)]
                  IN  IF f.many THEN ns ELSE SelectSeq(ns, Kept)
  IN  [t |-> tag,
       a |-> SelectSeq([i \in DOMAIN v.a |-> <<s.attrs[i].name, v.a[i]>>], LAMBDA p : p[2] # ""),
       x |-> <<"", v.x, "">>,
       k |-> FlattenSeq([i \in DOMAIN v.k |-> Field(i)])]
=============================================================================
