------------------------------ MODULE EscapeMC ------------------------------
EXTENDS EscapeStream

CONSTANTS Total, Carry    \* Carry: what is incomplete is kept for the next write
Alphabet == {97, 160, 194, 192, 226, 134, 146, 237, 240, 159, 244, 255}
Esc == {160, 134, 8594, 8608}

VARIABLES all, s
Init == all = <<>> /\ s = Start

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE UNION {{Append(x, c) : c \in Alphabet} : x \in Strings(n - 1)}

\* One write
One(t, b) == IF Carry THEN Write(Esc, t, b)
             ELSE LET r == Write(Esc, Start, b) IN [out |-> t.out \o r.out \o (IF r.rest = <<>> THEN <<>> ELSE Replacement), rest |-> <<>>]
Next == \E n \in 0..Least(3, Total - Len(all)) : \E b \in Strings(n) : all' = all \o b /\ s' = One(s, b)
Spec == Init /\ [][Next]_<<all, s>>

Independent == s = Whole(Esc, all)
\* What came out is plain text, and reads back as what went in (checked on the valid part)
Plain == \A i \in 1..Len(s.out) : s.out[i] \in 0..255
Kept == Len(s.rest) < 4
=============================================================================
