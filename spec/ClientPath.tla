----------------------------- MODULE ClientPath -----------------------------
(***************************************************************************)
(* How a repository's name gets from the client to the job: it is put into *)
(* the path of a URL, which the daemon takes apart again. With ESCAPE, the *)
(* client does so as RFC 3986 has it. Checked for all names of up to LEN   *)
(* characters, of those that mean something in a URL and some that do not. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS CHARS, LEN, ESCAPE

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE LET S == Strings(n - 1) IN S \cup {s \o c : s \in S, c \in CHARS}

At(s, i) == SubSeq(s, i, i)
Has(s, c) == \E i \in 1..Len(s) : At(s, i) = c

Code == ("%" :> "25") @@ ("/" :> "2F") @@ ("?" :> "3F") @@ ("#" :> "23") @@ (" " :> "20")
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F"}
Decoded == ("25" :> "%") @@ ("2F" :> "/") @@ ("3F" :> "?") @@ ("23" :> "#") @@ ("20" :> " ") @@ ("41" :> "A")

RECURSIVE Escaped(_)
Escaped(s) == IF s = "" THEN ""
              ELSE (IF At(s, 1) \in DOMAIN Code THEN "%" \o Code[At(s, 1)] ELSE At(s, 1)) \o Escaped(SubSeq(s, 2, Len(s)))

Sent(s) == IF ESCAPE THEN Escaped(s) ELSE s

REFUSED == "refused"

\* Up to the query or the fragment
RECURSIVE PathOf(_)
PathOf(s) == IF s = "" \/ At(s, 1) \in {"?", "#"} THEN "" ELSE At(s, 1) \o PathOf(SubSeq(s, 2, Len(s)))

RECURSIVE Unescaped(_)
Unescaped(s) ==
  IF s = "" THEN ""
  ELSE IF At(s, 1) # "%" THEN (LET r == Unescaped(SubSeq(s, 2, Len(s))) IN IF r = REFUSED THEN r ELSE At(s, 1) \o r)
  ELSE IF Len(s) < 3 \/ At(s, 2) \notin Hex \/ At(s, 3) \notin Hex \/ SubSeq(s, 2, 3) \notin DOMAIN Decoded THEN REFUSED
  ELSE LET r == Unescaped(SubSeq(s, 4, Len(s))) IN IF r = REFUSED THEN r ELSE Decoded[SubSeq(s, 2, 3)] \o r

\* A route has one name, without slashes
Received(s) == LET p == Unescaped(PathOf(Sent(s)))
               IN IF p = REFUSED \/ p = "" \/ Has(p, "/") THEN REFUSED ELSE p

VARIABLE name
Init == name \in Strings(LEN)
Next == UNCHANGED name
Spec == Init /\ [][Next]_name

\* The job is for the name that was given. Refused are names that no repository has.
Exact == Received(name) = name \/ (Received(name) = REFUSED /\ (name = "" \/ Has(name, "/")))
=============================================================================
