-------------------------- MODULE CommandLineTrace --------------------------
(***************************************************************************)
(* What came of command lines given to the real ferryctl, with a real      *)
(* daemon: lines                                                           *)
(*   [run, inv, up, jobs, out, err, before, after, shown]                  *)
(* of the jobs queued by it (as operations; others have op "other"), what  *)
(* was said, the jobs known before and after it (descriptions, in the      *)
(* order in which they were queued), and what was shown of them.           *)
(***************************************************************************)
EXTENDS CommandLine, Json, IOUtils, SequencesExt

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE pos


If(c, what) == IF c THEN {} ELSE {what}

Same(o, j) ==
  IF o.op # j.op THEN FALSE
  ELSE IF o.op = "import" THEN /\ j.repo = o.repo /\ Len(j.groups) = Len(o.groups)
                               /\ \A k \in DOMAIN o.groups : Range(j.groups[k]) = o.groups[k] /\ Len(j.groups[k]) = Cardinality(o.groups[k])
  ELSE j = o

History(l) == /\ l.after.completed = (IF l.inv.path = <<"reset", "completed">> /\ Here(l.inv) THEN <<>> ELSE l.before.completed)
              /\ l.after.failed = (IF l.inv.path = <<"reset", "failed">> /\ Here(l.inv) THEN <<>> ELSE l.before.failed)

Shown(l) ==
  LET s == l.shown  b == l.before  a == All(l.inv) IN
    CASE l.inv.path = <<"status">> ->
           If(s.completed = ShownPast(b.completed, a), "the completed jobs are not shown as they are")
           \cup If(s.failed = ShownPast(b.failed, a), "the failed jobs are not shown as they are")
           \cup If(s.current = ShownCurrent(b.current, a), "the current jobs are not shown as they are")
           \cup If(s.counts = <<Len(b.failed), Len(b.current), Len(b.completed)>>, "the jobs shown are not counted")
      [] l.inv.path = <<"list", "repos">> -> If(s.repos = l.repos, "the repositories are not shown as they are")
      [] l.inv.path = <<"list", "pool">> -> If(s.pool = l.pool, "the pool is not shown as it is")
      [] OTHER -> {}

Judge(l) ==
  LET o == Asked(l.inv) IN
    IF ~l.up THEN If((o.op = "none" /\ ~Here(l.inv)) \/ l.err # "", "nothing was said though there is no daemon")
    ELSE IF o.op # "none" THEN
      If(IF l.jobs = <<>> THEN ~Fits(InPath(o)) /\ l.err # ""
         ELSE Len(l.jobs) = 1 /\ Same(o, l.jobs[1]) /\ l.err = "", "the daemon was not asked for what the command line says")
      \cup If(History(l), "what was done is forgotten")
    ELSE
      If(l.jobs = <<>>, "something was asked for that the command line does not say")
      \cup If(History(l), "the histories are not as the command says")
      \cup (IF Here(l.inv) THEN If(l.err = "", "an error was told") \cup Shown(l)
            ELSE If(l.out # "" \/ l.err # "", "nothing was said though nothing was done"))

Init == pos = 0
Next == /\ pos < Len(Log)
        /\ pos' = pos + 1
        /\ LET l == Log[pos + 1]
               bad == Judge(l)
           IN /\ bad # {} => PrintT("VIOL " \o ToJson([line |-> pos + 1, run |-> l.run, vs |-> SetToSeq(bad)]))
              /\ pos + 1 = Len(Log) => PrintT("DONE " \o ToString(pos + 1))
Spec == Init /\ [][Next]_pos
=============================================================================
