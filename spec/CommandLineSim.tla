--------------------------- MODULE CommandLineSim ---------------------------
(***************************************************************************)
(* Generates sessions: a daemon with some done, failed and waiting jobs,   *)
(* and command lines given one after another, the last ones after it went. *)
(***************************************************************************)
EXTENDS CommandLine, Json, SequencesExt

DEPTH == 30

VARIABLES n, lines, size
vars == <<n, lines, size>>

Pick(s) == s[RandomElement(1..Len(s))]
Chance(k) == RandomElement(1..k) = 1

Names(k) == <<"main", "main", "unstable", "foo", "a b", "é", "a%2Fb", "a?b=c", "a#b", "a&b;c", "+1", "12", "-", "-n", "--", "a\"b", "a'b", "%", "...", "a/b", "", ".", "true", "$HOME", "*", "a,b", "repo", "source", "#", "=", "A", "a=b", "--full=maybe", "\\", "~">>
Numerals(k) == <<"1", "2", "3", "10", "+7", "007", "2147483647", "2147483648", "4294967297", "99999999999999999999", "-1", "0", "-0", "1.0", "0x5", "1e3", " 5", "5 ", "", "1_000", "+", "٣", "five", "+-1", "-2147483649">>
Paths == <<<<"create-repo">>, <<"remove", "repo">>, <<"delta">>, <<"index">>, <<"trim", "obsolete">>, <<"clone">>, <<"clone">>, <<"pull">>,
           <<"trim", "packages">>, <<"trim", "packages">>, <<"remove", "source">>, <<"remove", "source">>, <<"copy", "source">>, <<"copy", "source">>, <<"copy", "source">>,
           <<"import">>, <<"import">>, <<"import">>, <<"import">>,
           <<"status">>, <<"status">>, <<"status">>, <<"list", "repos">>, <<"list", "pool">>, <<"reset", "completed">>, <<"reset", "failed">>, <<"nothing">>, <<>>>>
FlagWords(p) == LET fs == Flags(p) IN
  IF fs = <<>> THEN <<"-x", "--all", "-f">>
  ELSE <<fs[1], fs[2], fs[1], fs[2], fs[1] \o "=true", fs[2] \o "=false", fs[2] \o "=1", fs[1] \o "=0", fs[2] \o "=T", fs[2] \o "=yes", "-q">>

Arity(p) ==
  CASE p \in {<<"create-repo">>, <<"remove", "repo">>, <<"delta">>, <<"index">>, <<"trim", "obsolete">>} -> 1
    [] p \in {<<"clone">>, <<"pull">>, <<"trim", "packages">>} -> 2
    [] p = <<"remove", "source">> -> Pick(<<2, 3, 3>>)
    [] p = <<"copy", "source">> -> Pick(<<3, 4, 4>>)
    [] p = <<"import">> -> Pick(<<2, 2, 3, 4>>)
    [] OTHER -> 0
Counted(p, a) == \/ p = <<"trim", "packages">> /\ a = 2
                 \/ p = <<"remove", "source">> /\ a = 3
                 \/ p = <<"copy", "source">> /\ a = 4

Insert(s, k, w) == SubSeq(s, 1, k - 1) \o <<w>> \o SubSeq(s, k, Len(s))

(* Directories to import from *)
NodeName(k, kind) == CASE kind = "dir" -> Pick(<<"d", "e", ".d", "..d", "f.x86_64.eopkg", "é d">>) \o (IF Chance(3) THEN "-x86_64.eopkg" ELSE ToString(k))
                       [] OTHER -> Pick(<<"p", "p", "p", ".p", "..p", "_", "#">>) \o ToString(k) \o Pick(<<"-1-1-1-x86_64.eopkg", "-1-1-1-x86_64.eopkg", "-1-1-1-x86_64.eopkg", " x86_64.eopkg", "-1-2-1-x86_64.delta.eopkg", "-1-1-1-i686.eopkg",
                                                                "-x86_64.eopkg.sig", "-x86_64.EOPKG", ".tram", "-%41-x86_64.eopkg", "x86_64.eopkg">>)
RECURSIVE Grow(_, _)
Grow(t, m) ==
  IF Len(t) >= m THEN t
  ELSE LET k == Len(t) + 1
           dirs == {j \in 1..Len(t) : t[j].kind = "dir"}
           kind == IF Chance(25) THEN "dangling" ELSE Pick(<<"file", "file", "file", "file", "dir", "dir", "link">>)
           nested(j) == {x \in 1..Len(t) : t[x].parent = j}
           \* targets: a file, or a directory of files outside of which the link is
           ends == {j \in 1..Len(t) : t[j].kind = "file" \/ (t[j].kind = "dir" /\ nested(j) # {} /\ \A x \in nested(j) : t[x].kind = "file")}
           parent == IF dirs = {} \/ Chance(3) THEN 0 ELSE RandomElement(dirs)
           to == IF ends = {} THEN 0 ELSE RandomElement(ends)
       IN IF kind = "link" /\ (to = 0 \/ (to # 0 /\ parent = to)) THEN Grow(t, m)
          ELSE Grow(Append(t, [name |-> NodeName(k, kind), kind |-> kind, parent |-> parent, to |-> IF kind = "link" THEN to ELSE 0]), m)
\* Linked directories stay directories of files
Sound(t) == \A k \in 1..Len(t) :
  /\ (t[k].kind = "link" /\ t[t[k].to].kind = "dir") => \A j \in 1..Len(t) : t[j].parent = t[k].to => t[j].kind = "file"
  /\ \A j \in 1..(k - 1) : ~(t[j].parent = t[k].parent /\ t[j].name = t[k].name)
RECURSIVE Tree(_)
Tree(k) == LET t == Grow(<<>>, RandomElement(1..9)) IN IF Sound(t) THEN t ELSE Tree(k)

Word(p, a, t, k) ==
  IF p = <<"import">> /\ a > 1 THEN (IF Chance(30) THEN Pick(<<"nowhere", "a b", "é", "%">>) ELSE "#" \o ToString(IF Chance(6) THEN 0 ELSE RandomElement(1..Len(t))))
  ELSE IF Counted(p, a) THEN (IF Chance(2) THEN Pick(<<"1", "2", "10", "+7", "007", "2147483647">>) ELSE Pick(Numerals(k)))
  ELSE Pick(Names(k))

Line(k) ==
  LET p == Pick(Paths)
      t == IF p = <<"import">> THEN Tree(k) ELSE <<>>
      right == Arity(p)
      m == IF Chance(8) THEN RandomElement(0..5) ELSE right
      plain == [a \in 1..m |-> Word(p, a, t, k)]
      dashed == \E a \in 1..m : Starts(plain[a], "-") /\ plain[a] # "-"
      closed == IF dashed /\ ~Chance(3) THEN <<"--">> \o plain ELSE plain
      flagged == IF (Flags(p) # <<>> /\ Chance(2)) \/ Chance(25)
                 THEN Insert(closed, IF Chance(6) THEN RandomElement(1..(Len(closed) + 1)) ELSE (IF dashed THEN 1 ELSE RandomElement(1..(Len(closed) + 1))), Pick(FlagWords(p)))
                 ELSE closed
      rest == IF Flags(p) # <<>> /\ Chance(12) THEN Insert(flagged, 1, Pick(FlagWords(p))) ELSE IF Chance(40) THEN Insert(flagged, 1, "-h") ELSE flagged
      inv == [path |-> p, rest |-> rest, tree |-> t]
      o == Asked(inv)
  IN [inv |-> inv, spell |-> RandomElement(0..5),
      want |-> IF o.op = "import" THEN [op |-> "import", repo |-> o.repo, groups |-> [g \in DOMAIN o.groups |-> SetToSeq(o.groups[g])]] ELSE o]

\* What ends with a word of the command itself is another command, and names are given to nobody
Init == n = 0 /\ lines = <<>> /\ size \in {<<RandomElement({0, 1, 9, 10, 11, 14}), RandomElement({0, 1, 9, 10, 11, 14}), RandomElement({1, 2, 9, 10, 12})>>}
Next ==
  IF n = 0 THEN n' = 1 /\ UNCHANGED lines /\ size' \in {<<RandomElement({0, 1, 9, 10, 11, 14}), RandomElement({0, 1, 9, 10, 11, 14}), RandomElement({1, 2, 9, 10, 12})>>}
  ELSE IF n <= DEPTH THEN \E l \in {Line(n)} : lines' = Append(lines, l) /\ n' = n + 1 /\ UNCHANGED size
  ELSE /\ n = DEPTH + 1 /\ n' = n + 1 /\ UNCHANGED <<lines, size>>
       /\ PrintT("SCRIPT " \o ToJson([size |-> size, lines |-> lines]))
Spec == Init /\ [][Next]_vars
=============================================================================
