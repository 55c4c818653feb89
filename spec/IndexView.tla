----------------------------- MODULE IndexView -----------------------------
(***************************************************************************)
(* What clients may see of the nine published files of a repository's      *)
(* index. A version is a number; 0 stands for a file that is not there.    *)
(* Nothing else is ever visible: no part of a file, no mixture.            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Bases == {"xml", "xml.xz", "xml.zst"}
Sums == {"", ".sha1sum", ".sha256sum"}
Files == Bases \X Sums

\* vis: the version of each visible file
\* run: "idle", "staging" (nothing published yet), "publishing"
\* new: the version that is being published
Whole(vis, v) == \A f \in Files : vis[f] = v

Start(v, s) == [vis |-> v, run |-> "idle", new |-> 0]

Begin(s, v) == [s EXCEPT !.run = "staging", !.new = v]

\* These files get their new content, each as a whole
CanShow(s, S) == s.run \in {"staging", "publishing"} /\ S # {}
Show(s, S) == [s EXCEPT !.run = "publishing", !.vis = [f \in Files |-> IF f \in S THEN s.new ELSE s.vis[f]]]

CanSucceed(s) == s.run # "idle" /\ Whole(s.vis, s.new)
\* What went wrong while preparing must not have reached the visible files
CanFail(s, preparing) == s.run = "staging" \/ (s.run = "publishing" /\ ~preparing)
Stop(s) == [s EXCEPT !.run = "idle"]
=============================================================================
