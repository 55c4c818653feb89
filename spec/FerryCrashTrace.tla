-------------------------- MODULE FerryCrashTrace --------------------------
(***************************************************************************)
(* Checks recorded crashes of the real code, as FerryTrace does recorded   *)
(* executions. A job was run undisturbed (a "step"), and, from the same    *)
(* state, cut off somewhere and run again, as a restarted daemon does (a   *)
(* "crash" each, with the state that the cut left and the one at the end). *)
(***************************************************************************)
EXTENDS FerryTrace

VARIABLE prev     \* the state before the last step

HeldIds(s, r) == IF r \in DOMAIN s.repos THEN AllAvail(s, r) \cup AllDeltas(s, r) ELSE {}

\* Records can be read at all: whatever an entry names is pooled
Joined(s) == \A r \in DOMAIN s.repos : HeldIds(s, r) \subseteq DOMAIN s.pool

\* What stays (it is held in c, and still is when the job is done, in d) is intact
Intact(c, d) ==
  \A r \in DOMAIN c.repos \cap DOMAIN d.repos : \A i \in HeldIds(c, r) \cap HeldIds(d, r) :
    LET u == d.pool[i].uri IN
    /\ u \in DOMAIN c.repos[r].files /\ u \in DOMAIN d.repos[r].files
    /\ c.repos[r].files[u] = d.repos[r].files[u]
    /\ u \in DOMAIN c.pfiles /\ c.pfiles[u] = d.pfiles[u]

\* Nothing is held that neither was nor will be
Between(s, c, d) == \A r \in DOMAIN c.repos : HeldIds(c, r) \subseteq HeldIds(s, r) \cup HeldIds(d, r)

PubHeld(c) == \A r \in DOMAIN c.repos : \A n \in DOMAIN c.repos[r].ents :
                LET e == Ent(c, r, n) IN e.avail # {} => e.pub \in e.avail

\* A crash is for C18 to judge. What fails for want of disk space, say, is an
\* operation that was refused half-way.
CutViolations(s, o, c, d, crash) ==
  LET bad(prop, what) == IF crash THEN {[prop |-> "C18", what |-> "cut off, " \o o.op \o " leaves " \o what]}
                         ELSE {[prop |-> prop, what |-> "a write having failed, " \o o.op \o " leaves " \o what]}
  IN (IF RefCounts(c) THEN {} ELSE bad("C01", "wrong reference counts"))
     \cup (IF OthersSame(s, c, o) THEN {} ELSE bad("C06", "another repository changed"))
     \cup (IF Between(s, c, d) THEN {} ELSE bad("C02", "packages that nobody wanted"))
     \cup (IF PubHeld(c) THEN {} ELSE bad("C03", "a published package that is not held"))
     \cup (IF ~Joined(c) THEN bad("C01", "entries without a pooled package")
           ELSE IF Intact(c, d) THEN {} ELSE bad("C02", "damaged files of held packages"))

\* What is left undone when a job is run again is listed: it is refused, or has
\* nothing to do any more, because it had been done as far as its records go.
Listed(s, o, c, d, ok, t) ==
  CASE o.op \in {"create", "clone"} -> ~ok /\ t = c /\ Target(o) \notin DOMAIN s.repos /\ Target(o) \in DOMAIN c.repos
    [] o.op = "upload" -> ~ok /\ t = c /\ c # s
    [] o.op = "remove" -> ~ok /\ t = c /\ Match(c, o.repo, o) = {} /\ Match(s, o.repo, o) # {}
                          /\ [c EXCEPT !.repos[o.repo].idx = d.repos[o.repo].idx] = d
    [] o.op = "delta" -> ok /\ o.repo \in DOMAIN c.repos /\ c.repos[o.repo].ents = d.repos[o.repo].ents
                         /\ [t EXCEPT !.repos[o.repo].idx = d.repos[o.repo].idx, !.left = d.left] = d
                         /\ t.repos[o.repo].idx \in {c.repos[o.repo].idx, d.repos[o.repo].idx} /\ t.left \subseteq d.left \cup c.left
    [] OTHER -> FALSE

\* Packages of the same release are not told apart when it is trimmed: to be
\* run twice may leave fewer of them.
Allowed(s, o, r) == LET once == Step(U, s, o) IN
  r \in once \/ (o.op = "trim" /\ \E x \in once : x.ok /\ r \in Step(U, x.st, o))

Bad(s, l, c, d, ok, t) ==
  LET bad(what) == {[prop |-> "C18", what |-> what]}
      how == l.op.op \o (IF l.kind = "fail" THEN ", a write having failed and run again, " ELSE ", cut off and run again, ")
  IN IF l.ok # ok
     THEN bad(how \o (IF l.ok THEN "succeeds" ELSE "fails"))
     ELSE (IF t = d \/ Allowed(s, l.op, [ok |-> ok, st |-> t]) THEN {}
           ELSE UNION {bad(x \o " not as it should be after " \o l.op.op \o (IF l.kind = "fail" THEN " failed" ELSE " was cut off") \o " and was run again") : x \in Diff(d, t, l.op)})
          \cup FlagViolations(l)
          \cup (IF ok THEN Incoming(l) ELSE {})

CrashViolations(s, l, c, d, ok, t) ==
  IF ~Sane(s) \/ ~Sane(d) THEN {}
  ELSE IF l.kind = "fail" /\ l.done
  THEN IF t = d \/ Allowed(s, l.op, [ok |-> TRUE, st |-> t]) THEN FlagViolations(l)
       ELSE {[prop |-> "C02", what |-> "a write having failed, " \o l.op.op \o " succeeds, with " \o x \o " not as it should be"] : x \in Diff(d, t, l.op)} \cup FlagViolations(l)
  ELSE CutViolations(s, l.op, c, d, l.kind = "crash") \cup
       (LET bad == Bad(s, l, c, d, ok, t)
        IN IF bad = {} \/ (t = d /\ c = d) THEN {}
           ELSE IF Listed(s, l.op, c, d, l.ok, t)
           THEN {[prop |-> "C18", what |-> l.op.op \o (IF l.kind = "fail" THEN ", a write having failed," ELSE ", cut off,") \o " is not completed when it is run again", finding |-> "crash-" \o l.op.op]}
           ELSE bad)

\* The step that was done undisturbed
LastOk(p) == LET k == CHOOSE k \in 1..p : Log[k].kind = "step" /\ \A m \in k+1..p : Log[m].kind \in {"crash", "fail"} IN Log[k].ok

CInit == Init /\ prev = Init0

CNext ==
  /\ pos < Len(Log)
  /\ pos' = pos + 1
  /\ LET l == Log[pos + 1]
         t == Norm(l.st)
         crash == l.kind \in {"crash", "fail"}
         vs == IF crash THEN CrashViolations(prev, l, Norm(l.cut), st, LastOk(pos), t)
               ELSE IF l.kind = "init" THEN StateViolations(Init0, t) \cup FlagViolations(l)
               ELSE StepViolations(st, l, t)
     IN /\ st' = IF crash THEN st ELSE t
        /\ prev' = IF crash THEN prev ELSE st
        /\ vs # {} => PrintT("VIOL " \o ToJson([line |-> pos + 1, run |-> l.run, vs |-> SetToSeq(vs)]))
        /\ pos + 1 = Len(Log) => PrintT("DONE " \o ToString(pos + 1))

CSpec == CInit /\ [][CNext]_<<pos, st, prev>>
=============================================================================
