---------------------------- MODULE EscapeStream ----------------------------
(***************************************************************************)
(* Escaping of the index text, over bytes. What is written in total decides *)
(* what comes out, however it was cut into writes: characters of certain    *)
(* classes (Esc) become numeric references, other valid ones pass, and each *)
(* invalid byte becomes U+FFFD. The writer carries what may still become a  *)
(* character over to the next write.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* ---- UTF-8 ----
\* How many bytes a sequence starting with c has (0: none does)
Width(c) == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
\* What may be second: no overlong forms, no surrogates, nothing beyond U+10FFFF
Second(c) == CASE c = 224 -> 160..191 [] c = 237 -> 128..159 [] c = 240 -> 144..191 [] c = 244 -> 128..143 [] OTHER -> 128..191
Good(b) == \A i \in 2..Len(b) : b[i] \in (IF i = 2 THEN Second(b[1]) ELSE 128..191)

Least(a, c) == IF a < c THEN a ELSE c
\* Could it still become a character?
Incomplete(b) == Width(b[1]) > Len(b) /\ Good(b)
Size(b) == LET w == Width(b[1]) IN IF w > 0 /\ Len(b) >= w /\ Good(SubSeq(b, 1, w)) THEN w ELSE 1
Valid(b) == LET w == Width(b[1]) IN w > 0 /\ Len(b) >= w /\ Good(SubSeq(b, 1, w))
CodePoint(b) ==
  CASE Len(b) = 1 -> b[1]
    [] Len(b) = 2 -> (b[1] - 192) * 64 + b[2] - 128
    [] Len(b) = 3 -> (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128
    [] Len(b) = 4 -> (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128

\* ---- references ----
Digit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN <<Digit(n)>> ELSE Append(Hex(n \div 16), Digit(n % 16))
Reference(cp) == <<38, 35, 120>> \o Hex(cp) \o <<59>>
Replacement == <<239, 191, 189>>

\* What the character at the start of b becomes
First(Esc, b) ==
  IF ~Valid(b) THEN Replacement
  ELSE LET c == SubSeq(b, 1, Size(b)) IN IF CodePoint(c) \in Esc THEN Reference(CodePoint(c)) ELSE c

\* ---- as a whole ----
\* [out, rest]
RECURSIVE Whole(_, _)
Whole(Esc, b) ==
  IF b = <<>> THEN [out |-> <<>>, rest |-> <<>>]
  ELSE IF Incomplete(b) THEN [out |-> <<>>, rest |-> b]
  ELSE LET r == Whole(Esc, SubSeq(b, Size(b) + 1, Len(b))) IN [r EXCEPT !.out = First(Esc, b) \o @]

\* ---- byte by byte ----
Start == [out |-> <<>>, rest |-> <<>>]
RECURSIVE Drain(_, _)
Drain(Esc, s) ==
  IF s.rest = <<>> \/ Incomplete(s.rest) THEN s
  ELSE Drain(Esc, [out |-> s.out \o First(Esc, s.rest), rest |-> SubSeq(s.rest, Size(s.rest) + 1, Len(s.rest))])
Feed(Esc, s, c) == Drain(Esc, [s EXCEPT !.rest = Append(@, c)])
Write(Esc, s, b) == FoldLeft(LAMBDA t, c : Feed(Esc, t, c), s, b)
=============================================================================
