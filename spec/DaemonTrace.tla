---------------------------- MODULE DaemonTrace -----------------------------
(***************************************************************************)
(* Checks recorded sessions of clients with the real daemon against Daemon.*)
(* Each line is something that was done, followed by what status and       *)
(* listings say once all jobs are done, or the next one is held up; and in *)
(* the former case also by the complete state observed.                    *)
(*                                                                         *)
(*   es    the jobs that should come of it, with their descriptions        *)
(*   acc   whether the client was told that each was accepted              *)
(*   fin   outcomes that are new in the histories, in order of their end   *)
(*   cur, done, failed   what status says, in order                        *)
(***************************************************************************)
EXTENDS FerryTrace, Daemon

VARIABLES d, dead

Desc(es) == [k \in 1..Len(es) |-> es[k].desc]
Sorted(q) == [x \in Set(q) |-> Cardinality({k \in 1..Len(q) : q[k] = x})]
Same(a, b) == Sorted(a) = Sorted(b)

Is(e, desc) == e.desc = desc

Bad(d0, what) == [d |-> d0, bad |-> {[prop |-> "C23", what |-> what]}, lost |-> TRUE]
Good(d0) == [d |-> d0, bad |-> {}, lost |-> FALSE]

\* Which of the requests have become jobs
\* (where nothing can be stored, all of them may be refused)
RECURSIVE Taken(_, _, _, _)
Taken(es, acc, must, k) ==
  IF k > Len(es) THEN [es |-> <<>>, bad |-> {}]
  ELSE LET r == Taken(es, acc, must, k + 1)
           fits == must /\ Carried(InPath(es[k].op))
       IN IF acc[k] THEN [r EXCEPT !.es = <<es[k]>> \o @]
          ELSE IF fits /\ es[k].op.op # "upload"
          THEN [r EXCEPT !.bad = @ \cup {[prop |-> "C23", what |-> "a request to " \o es[k].op.op \o " was not accepted"]}]
          ELSE r

MalformedBy(x, o) == \E s \in x.sts : Malformed(s, o)

RECURSIVE Finished(_, _)
Finished(x, fin) ==
  IF fin = <<>> THEN Good(x)
  ELSE LET f == Head(fin)
           ks == {k \in NextUp(x) : Is(x.q[k], f.desc)}
       IN IF ks = {}
          THEN IF ~f.ok /\ f.delta /\ (x.extra > 0 \/ \E k \in NextUp(x) : x.q[k].op.op = "deltarepo") THEN Finished([x EXCEPT !.extra = @ - 1, !.failed = Append(@, f.desc)], Tail(fin))
               ELSE Bad(x, "a job was done that is not the next one: " \o f.desc)
          ELSE LET k == CHOOSE k \in ks : TRUE
                   y == Finish(U, x, k, f.ok, f.desc)
                   mal == IF MalformedBy(x, x.q[k].op) THEN {[prop |-> "C22", what |-> "malformed input: " \o x.q[k].op.op \o " ended otherwise"]} ELSE {}
               IN IF y.sts = {}
                  THEN LET b == Bad(x, x.q[k].op.op \o (IF f.ok THEN " succeeded but had to be refused" ELSE " failed but had to succeed"))
                       IN [b EXCEPT !.bad = @ \cup mal]
                  ELSE Finished(y, Tail(fin))

Pool(t) == {<<i, t.pool[i].ref>> : i \in DOMAIN t.pool}
PairSet(q) == {<<q[k].id, q[k].n>> : k \in 1..Len(q)}

If(c, what) == IF c THEN {} ELSE {[prop |-> "C23", what |-> what]}

\* What is left of the queue is what is current
Current(x, cur) ==
  LET mine == SelectSeq(cur, LAMBDA c : ~c.delta)
      grps == {x.q[k].grp : k \in 1..Len(x.q)}
  IN /\ Len(mine) = Len(x.q)
     /\ Len(cur) - Len(mine) <= x.extra
     /\ \A g \in grps :
          LET at == {k \in 1..Len(x.q) : x.q[k].grp = g}
          IN Cardinality(at) = 1 => \A k \in at : Is(x.q[k], mine[k].desc)
     /\ \A k \in 1..Len(x.q) : \E j \in 1..Len(mine) : Is(x.q[k], mine[j].desc)

Seen(x, l) ==
  IF ~l.snap THEN Good(x)
  ELSE LET y == Finished(x, l.fin)
       IN IF y.lost THEN y
          ELSE LET z == y.d
                   bad == If(Current(z, l.cur), "the jobs that are waiting or running are not those that status lists")
                          \cup If(Same(l.done, z.done), "the completed jobs are not those that status lists")
                          \cup If(Same(l.failed, z.failed), "the failed jobs are not those that status lists")
                          \cup (IF ~l.drained THEN {}
                                ELSE LET t == Norm(l.st) IN
                                     If(z.q = <<>>, "jobs that were accepted have not been done")
                                     \cup If(t \in z.sts, "the jobs that were done are not those that were asked for")
                                     \cup If(Set(l.repos) = DOMAIN t.repos /\ Len(l.repos) = Cardinality(DOMAIN t.repos), "the repositories listed are not those that exist")
                                     \cup If(PairSet(l.pool) = Pool(t) /\ Len(l.pool) = Cardinality(DOMAIN t.pool), "the pool is not as it is listed"))
               IN [d |-> IF l.drained THEN [z EXCEPT !.sts = {Norm(l.st)}] ELSE z, bad |-> bad, lost |-> bad # {}]

Apply(x, l) ==
  LET a == l.act.a IN
  CASE a = "direct" -> LET o == l.act.op IN [x EXCEPT !.sts = {r.st : r \in UNION {Step(U, s, o) : s \in @}}]
    [] a = "resetdone" -> ResetDone(x)
    [] a = "resetfailed" -> ResetFailed(x)
    [] OTHER -> x

Extra(l) == CASE l.act.a = "restart" -> {"C14"}
              [] l.act.a \in {"resetdone", "resetfailed"} -> {"C15"}
              [] l.act.a = "raw" -> {"C22"}
              [] OTHER -> {}

Line(x, l) ==
  LET t == Taken(l.es, l.acc, l.act.a # "fault", 1)
      s == Seen(Accept(Apply(x, l), t.es), l)
      bad == t.bad \cup s.bad \cup FlagViolations(l)
  IN [d |-> s.d, bad |-> bad \cup {[prop |-> p, what |-> "after " \o l.act.a \o ", " \o b.what] : p \in Extra(l), b \in {b \in bad : b.prop = "C23"}},
      lost |-> s.lost \/ t.bad # {}]

DInit == Init /\ d = Daemon0(Init0) /\ dead = FALSE

DNext ==
  /\ pos < Len(Log)
  /\ pos' = pos + 1
  /\ st' = st
  /\ LET l == Log[pos + 1]
         r == IF l.kind = "init" THEN [d |-> Daemon0(Norm(l.st)), bad |-> FlagViolations(l), lost |-> FALSE]
              ELSE IF dead THEN [d |-> d, bad |-> {}, lost |-> TRUE]
              ELSE Line(d, l)
     IN /\ d' = r.d
        /\ dead' = r.lost
        /\ r.bad # {} => PrintT("VIOL " \o ToJson([line |-> pos + 1, run |-> l.run, vs |-> SetToSeq(r.bad)]))
        /\ pos + 1 = Len(Log) => PrintT("DONE " \o ToString(pos + 1))

DSpec == DInit /\ [][DNext]_<<pos, st, d, dead>>
=============================================================================
