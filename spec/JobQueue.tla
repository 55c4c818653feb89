------------------------------ MODULE JobQueue ------------------------------
(***************************************************************************)
(* The job store of ferryd and the workers on it.                          *)
(*                                                                         *)
(* A job is a number that is given when it is accepted. st is              *)
(*   q    : "seq", "async" -> sequence of <<job, claimed>>                 *)
(*   work : worker -> <<kind, job>>, or <<>> when it has none              *)
(*   hist : "ok", "fail" -> the newest outcomes, oldest first              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Kinds == {"seq", "async"}

Fresh(workers) == [q |-> [k \in Kinds |-> <<>>], work |-> [w \in workers |-> <<>>], hist |-> [h \in {"ok", "fail"} |-> <<>>]]

Push(st, k, n) == [st EXCEPT !.q[k] = Append(@, <<n, FALSE>>)]

\* The first job that nobody has claimed, or 0
FirstFree(q) == LET c == {i \in 1..Len(q) : ~q[i][2]} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

Claim(st, k, w) == LET i == FirstFree(st.q[k]) IN
  IF i = 0 THEN st ELSE [st EXCEPT !.q[k][i] = <<@[1], TRUE>>, !.work[w] = <<k, st.q[k][i][1]>>]
Claimed(st, k) == LET i == FirstFree(st.q[k]) IN IF i = 0 THEN 0 ELSE st.q[k][i][1]

Newest(s, max) == IF Len(s) <= max THEN s ELSE SubSeq(s, Len(s) - max + 1, Len(s))

Retire(st, w, fail, max) == LET k == st.work[w][1]  n == st.work[w][2]  h == IF fail THEN "fail" ELSE "ok" IN
  [st EXCEPT !.q[k] = SelectSeq(@, LAMBDA e : e[1] # n), !.work[w] = <<>>, !.hist[h] = Newest(Append(@, n), max)]

Reset(st, h) == [st EXCEPT !.hist[h] = <<>>]

\* What is left when the process is gone, and ready when it starts again
Restart(st) == [st EXCEPT !.q = [k \in Kinds |-> [i \in 1..Len(st.q[k]) |-> <<st.q[k][i][1], FALSE>>]],
                          !.work = [w \in DOMAIN st.work |-> <<>>]]

\* The sequential jobs first, each queue in order
Active(st) == st.q["seq"] \o st.q["async"]
=============================================================================
