---------------------------- MODULE EscapeTrace -----------------------------
(* What the real writer made of texts, in one write or in many, checked     *)
(* against EscapeStream.                                                    *)
EXTENDS EscapeStream, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos
Set(q) == {q[i] : i \in DOMAIN q}

Expected(l) == LET E == Set(l.esc) IN Write(E, Start, l.b).out
OK(l) == l.took /\ Set(l.outs) = {Expected(l)}

Init == pos = 0
Next == /\ pos < Len(Log)
        /\ pos' = pos + 1
        /\ ~OK(Log[pos + 1]) => PrintT("VIOL " \o ToJson([line |-> pos + 1]))
        /\ pos' = Len(Log) => PrintT("DONE " \o ToString(pos'))
Spec == Init /\ [][Next]_pos
=============================================================================
