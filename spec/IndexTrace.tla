----------------------------- MODULE IndexTrace -----------------------------
(* What was seen of the published files while index runs of the real code   *)
(* went on, failed, or were cut off, checked against IndexView.             *)
EXTENDS IndexView, Sequences, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
Vis(l) == [f \in Files |-> l.vis[f[1] \o f[2]]]

VARIABLES pos, s, d, bad, known
vars == <<pos, s, d, bad, known>>
\* bad: this run was found wrong already

\* The version of a state: what the first successful run of it published (-2: there is none)
Versions(run) ==
  LET E == {i \in 1..N : Log[i].run = run /\ Log[i].ev = "end" /\ Log[i].ok}
  IN [x \in {Log[i].d : i \in E} |->
        LET i == CHOOSE i \in E : Log[i].d = x /\ \A j \in E : Log[j].d = x => i <= j IN Log[i].vis["xml"]]
Version(x) == IF x \in DOMAIN known THEN known[x] ELSE -2
Others(x) == {known[y] : y \in DOMAIN known \ {x}}

Changed(vis) == {f \in Files : vis[f] # s.vis[f]}
\* What is shown, if not known yet, is one version that is not another state's
New(vis) == IF s.new # -2 THEN s.new ELSE IF Changed(vis) = {} THEN -2 ELSE vis[CHOOSE f \in Changed(vis) : TRUE]
ShowOK(vis) ==
  LET S == Changed(vis)
      t == [s EXCEPT !.new = New(vis)]
  IN /\ \A f \in S : vis[f] >= 1     \* complete
     /\ S = {} \/ (CanShow(t, S) /\ Show(t, S).vis = vis)
     /\ S # {} /\ s.new = -2 => t.new \notin Others(d)

Preparing(fault) == fault # "rename"

\* [ok, s]
Do(l) ==
  CASE l.ev = "init" -> [ok |-> Whole(Vis(l), l.vis["xml"]) /\ l.vis["xml"] >= 0, s |-> Start(Vis(l), 0), why |-> "new repository"]
    [] l.ev = "begin" -> [ok |-> s.run = "idle", s |-> Begin(s, Version(l.d)), why |-> "begin"]
    [] l.ev = "show" -> [ok |-> ShowOK(Vis(l)), s |-> Show([s EXCEPT !.new = New(Vis(l))], Changed(Vis(l))), why |-> "what is visible"]
    [] l.ev = "end" -> [ok |-> /\ Vis(l) = s.vis
                               /\ IF l.ok THEN CanSucceed(s) /\ l.agree ELSE l.fault # "" /\ CanFail(s, Preparing(l.fault)),
                        s |-> Stop(s), why |-> IF l.ok THEN "a run that succeeds" ELSE IF l.fault = "" THEN "a run that fails" ELSE "a failing step"]
    [] l.ev = "crash" -> [ok |-> Vis(l) = s.vis, s |-> Stop(s), why |-> "crash"]
    [] OTHER -> [ok |-> Vis(l) = s.vis, s |-> s, why |-> l.ev]

Init == pos = 0 /\ s = Start([f \in Files |-> 0], 0) /\ d = 0 /\ bad = FALSE /\ known = <<>>
Next ==
  /\ pos < N
  /\ pos' = pos + 1
  /\ LET l == Log[pos + 1]
         r == Do(l)
     IN /\ known' = IF l.ev = "init" THEN Versions(l.run) ELSE known
        /\ d' = IF l.ev = "begin" THEN l.d ELSE d
        /\ s' = r.s
        /\ bad' = IF l.ev = "init" THEN ~r.ok ELSE bad \/ ~r.ok
        /\ (~r.ok /\ (~bad \/ l.ev = "init")) => PrintT("VIOL " \o ToJson([line |-> pos + 1, run |-> l.run, what |-> r.why]))
  /\ pos + 1 = N => PrintT("DONE " \o ToString(N))
Spec == Init /\ [][Next]_vars
=============================================================================
