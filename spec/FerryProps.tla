----------------------------- MODULE FerryProps ----------------------------
(***************************************************************************)
(* The properties of single requests, as predicates on (state before,      *)
(* request, success, state after). They say what a user may rely on, and   *)
(* are written without the operators of FerryCore that say how a request   *)
(* works, so that                                                          *)
(*   - FerryCoreMC can check the one against the other exhaustively, and   *)
(*   - FerryTrace can evaluate them on what the real code has done.        *)
(* StateInv of FerryCore has the properties of single states.              *)
(***************************************************************************)
EXTENDS FerryCore

Repos(s) == DOMAIN s.repos
Names(s, r) == DOMAIN s.repos[r].ents
PubRel(s, r, n) == s.pool[Ent(s, r, n).pub].rel
Gone(s, t, r) == AllAvail(s, r) \ AllAvail(t, r)
New(s, t, r) == AllAvail(t, r) \ AllAvail(s, r)

\* The same packages and deltas in the same repositories, published alike
Holds(s) == [r \in Repos(s) |-> s.repos[r].ents]
Unchanged(s, t) == s = t

(* C04: the index of repository r is what it has to be *)
IndexTrue(u, s, r) ==
  LET x   == s.repos[r].idx
      obs == IF HasAsset(s, r, DIST) THEN u.dist[Asset(s, r, DIST)].obs ELSE {}
      out == obs \cup {o \o "-dbginfo" : o \in obs}
  IN /\ x # NoIdx
     /\ {e.id : e \in x.ents} = {Ent(s, r, n).pub : n \in Names(s, r) \ out}
     /\ Cardinality(x.ents) = Cardinality(Names(s, r) \ out)
     /\ \A e \in x.ents :
          LET n == s.pool[e.id].name IN
          /\ e.uri \in DOMAIN s.repos[r].files
          /\ s.repos[r].files[e.uri] = e.sha
          /\ e.size = SizeOf(e.sha)
          /\ e.deltas = {[frel |-> s.pool[d].frel, sha |-> s.repos[r].files[s.pool[d].uri],
                          size |-> SizeOf(s.repos[r].files[s.pool[d].uri]), uri |-> s.pool[d].uri]
                         : d \in {c \in Ent(s, r, n).deltas : s.pool[c].trel = PubRel(s, r, n)}}
     /\ x.dist = (IF HasAsset(s, r, DIST) THEN u.dist[Asset(s, r, DIST)].tok ELSE "")
     /\ x.comps = (IF HasAsset(s, r, COMP) THEN u.comps[Asset(s, r, COMP)].tok ELSE "")
     /\ x.groups = (IF HasAsset(s, r, GRPS) THEN u.groups[Asset(s, r, GRPS)].tok ELSE "")

Indexes(o) == \/ o.op \in {"create", "import", "upload", "clone", "pull", "remove", "trim", "trimobs", "index"}
              \/ o.op = "copy" /\ ~o.skip

P04(u, s, o, ok, t) ==
  /\ (ok /\ Indexes(o)) => IndexTrue(u, t, Target(o))
  /\ o.op = "copy" /\ o.skip /\ o.target \in Repos(s) \cap Repos(t)
       => t.repos[o.target].idx = s.repos[o.target].idx

(* C02: contents never change, in any repository or in the pool *)
P02(u, s, o, ok, t) ==
  /\ \A f \in DOMAIN s.pfiles \cap DOMAIN t.pfiles : s.pfiles[f] = t.pfiles[f]
  /\ \A r \in Repos(s) \cap Repos(t) : \A f \in DOMAIN s.repos[r].files \cap DOMAIN t.repos[r].files :
       s.repos[r].files[f] = t.repos[r].files[f]

(* C03: only a strictly newer package replaces the published one, as long  *)
(* as none are removed                                                     *)
P03(u, s, o, ok, t) ==
  \A r \in Repos(s) \cap Repos(t) : \A n \in Names(s, r) \cap Names(t, r) :
    LET was == Ent(s, r, n).pub
        is  == Ent(t, r, n).pub
    IN Ent(s, r, n).avail \subseteq Ent(t, r, n).avail => (is = was \/ t.pool[is].rel > t.pool[was].rel)

(* C06 *)
P06(u, s, o, ok, t) ==
  /\ OthersSame(s, t, o)
  /\ o.op \in {"clone", "pull", "copy"} /\ o.repo \notin Repos(s) => Unchanged(s, t)
  /\ o.op \notin {"create", "clone"} /\ Target(o) # "" /\ Target(o) \notin Repos(s) => Unchanged(s, t)

(* C07 *)
P07(u, s, o, ok, t) ==
  o.op = "clone" =>
    /\ ok => /\ o.repo \in Repos(s) /\ o.target \notin Repos(s) /\ o.target \in Repos(t)
             /\ t.repos[o.target].assets = s.repos[o.repo].assets
             /\ IF o.full
                THEN /\ Names(t, o.target) = Names(s, o.repo)
                     /\ \A n \in Names(s, o.repo) :
                          /\ Ent(t, o.target, n).avail = Ent(s, o.repo, n).avail
                          /\ Ent(t, o.target, n).deltas = Ent(s, o.repo, n).deltas
                          /\ PubRel(t, o.target, n) = PubRel(s, o.repo, n)
                ELSE /\ Names(t, o.target) = Names(s, o.repo)
                     /\ \A n \in Names(s, o.repo) :
                          Ent(t, o.target, n) = [avail |-> {Ent(s, o.repo, n).pub},
                                                 pub |-> Ent(s, o.repo, n).pub, deltas |-> {}]
    /\ o.repo \notin Repos(s) \/ o.target \in Repos(s) => ~ok /\ Unchanged(s, t)

(* C08 *)
P08(u, s, o, ok, t) ==
  o.op = "pull" /\ {o.repo, o.target} \subseteq Repos(s) =>
    LET common == Names(s, o.repo) \cap Names(s, o.target)
        back   == \E n \in common : PubRel(s, o.target, n) > PubRel(s, o.repo, n)
    IN IF back THEN ~ok /\ Holds(s) = Holds(t)
       ELSE LET want == {n \in Names(s, o.repo) : n \in common => PubRel(s, o.repo, n) > PubRel(s, o.target, n)}
            IN /\ o.target \in Repos(t)
               /\ AllAvail(t, o.target) = AllAvail(s, o.target) \cup {Ent(s, o.repo, n).pub : n \in want}
               /\ \A n \in want : Ent(t, o.target, n).pub = Ent(s, o.repo, n).pub
               /\ \A n \in Names(s, o.target) \ want : Ent(t, o.target, n) = Ent(s, o.target, n)
               /\ \A f \in DOMAIN s.repos[o.repo].assets :
                    f \in DOMAIN t.repos[o.target].assets
                    /\ t.repos[o.target].assets[f] = s.repos[o.repo].assets[f]

(* C09 *)
Match(s, r, o) == {i \in AllAvail(s, r) : s.pool[i].src = o.source /\ (o.rel <= 0 \/ s.pool[i].rel = o.rel)}
P09(u, s, o, ok, t) ==
  /\ o.op = "copy" /\ {o.repo, o.target} \subseteq Repos(s) =>
       IF Match(s, o.repo, o) = {} THEN ~ok /\ Unchanged(s, t)
       ELSE /\ o.target \in Repos(t)
            /\ AllAvail(t, o.target) = AllAvail(s, o.target) \cup Match(s, o.repo, o)
  /\ o.op = "remove" /\ o.repo \in Repos(s) =>
       IF Match(s, o.repo, o) = {} THEN ~ok /\ Unchanged(s, t)
       ELSE /\ o.repo \in Repos(t)
            /\ AllAvail(t, o.repo) = AllAvail(s, o.repo) \ Match(s, o.repo, o)

(* C10 *)
P10(u, s, o, ok, t) ==
  o.op = "trim" /\ o.repo \in Repos(s) =>
    IF o.keep < 1 THEN ~ok /\ Unchanged(s, t)
    ELSE /\ o.repo \in Repos(t)
         /\ Names(t, o.repo) = Names(s, o.repo)
         /\ \A n \in Names(s, o.repo) :
              LET a == Ent(s, o.repo, n).avail
                  b == Ent(t, o.repo, n).avail
              IN /\ b \subseteq a
                 /\ \/ Cardinality(b) = (IF Cardinality(a) <= o.keep THEN Cardinality(a) ELSE o.keep)
                    \* the published one comes on top, if others are just as new
                    \/ /\ Cardinality(b) = o.keep + 1 /\ Cardinality(a) > o.keep
                       /\ \A j \in b : s.pool[j].rel >= PubRel(s, o.repo, n)
                 /\ Ent(s, o.repo, n).pub \in b
                 /\ \A i \in a \ b : \A j \in b : s.pool[i].rel <= s.pool[j].rel

(* C11 *)
P11(u, s, o, ok, t) ==
  o.op = "trimobs" /\ o.repo \in Repos(s) =>
    IF ~HasAsset(s, o.repo, DIST) THEN ~ok /\ Unchanged(s, t)
    ELSE LET d == u.dist[Asset(s, o.repo, DIST)]
             out == d.obs \cup {x \o "-dbginfo" : x \in d.obs}
         IN ~d.bad => /\ o.repo \in Repos(t)
                      /\ AllAvail(t, o.repo) = {i \in AllAvail(s, o.repo) : s.pool[i].name \notin out}

(* C12 *)
ManifestGood(u, m) ==
  /\ m.valid /\ Len(m.files) > 0 /\ Plain(m)
  /\ \A i \in 1..Len(m.files) : LET x == m.files[i] IN x.there /\ x.sum /\ x.local /\ x.suffix /\ Plain(x)
                                 /\ u.files[x.f].kind \notin Unreadable
P12(u, s, o, ok, t) ==
  o.op = "upload" =>
    /\ ~ManifestGood(u, o.man) => ~ok /\ Unchanged(s, t)
    /\ o.man.target \notin Repos(s) => ~ok /\ Unchanged(s, t)
    /\ o.man.target \in Repos(s) \cap Repos(t) =>
         LET offered == {u.files[o.man.files[i].f].id : i \in {j \in 1..Len(o.man.files) :
                                          u.files[o.man.files[j].f].kind = "pkg"}}
         IN /\ Gone(s, t, o.man.target) = {}
            /\ New(s, t, o.man.target) \subseteq offered
            \* forward only
            /\ \A i \in New(s, t, o.man.target) :
                 HasName(s, o.man.target, t.pool[i].name) =>
                   t.pool[i].rel > PubRel(s, o.man.target, t.pool[i].name)
            /\ ok => \A i \in 1..Len(o.man.files) : u.files[o.man.files[i].f].id \in AllAvail(t, o.man.target)

(* C17 *)
P17(u, s, o, ok, t) ==
  /\ o.op = "delta" /\ o.repo \in Repos(s) =>
       \A d \in AllDeltas(t, o.repo) \ AllDeltas(s, o.repo) :
         /\ t.pool[d].name = o.name
         /\ t.pool[d].from \in Ent(s, o.repo, o.name).avail
         /\ t.pool[d].to \in Newest(s, Ent(s, o.repo, o.name).avail)
         /\ d \notin s.skips
         /\ d \in DOMAIN s.pool => [s.pool[d] EXCEPT !.ref = @ + 1] = t.pool[d]
  /\ o.op = "include" /\ o.repo \in Repos(s) \cap Repos(t) =>
       \A d \in AllDeltas(t, o.repo) \ AllDeltas(s, o.repo) :
         d = o.d /\ {t.pool[d].from, t.pool[d].to} \subseteq Ent(s, o.repo, o.name).avail
  /\ o.op = "produce" => Unchanged(s, t)
  /\ o.op # "delta" => s.skips = t.skips
  /\ o.op \notin {"delta", "include"} =>
                       (DOMAIN t.pool \ DOMAIN s.pool) \cap {d \in DOMAIN t.pool : t.pool[d].from # ""} = {}
  \* dropped only with an endpoint
  /\ o.op # "delete" =>
       \A r \in Repos(s) \cap Repos(t) : \A n \in Names(s, r) : \A d \in Ent(s, r, n).deltas :
         {s.pool[d].from, s.pool[d].to} \subseteq Avail(t, r, n) => d \in Ent(t, r, n).deltas

(* C24 *)
P24(u, s, o, ok, t) ==
  /\ o.op = "create" =>
       LET may == o.repo \notin Repos(s) /\ ValidName(o.repo) /\ "repo/" \o o.repo \notin s.left
       IN /\ ok = may
          /\ may => o.repo \in Repos(t) /\ Names(t, o.repo) = {} /\ DOMAIN t.repos[o.repo].files = {}
                    /\ DOMAIN t.repos[o.repo].assets = {} /\ t.repos[o.repo].idx # NoIdx
          /\ ~may => Unchanged(s, t)
  /\ o.op = "delete" =>
       /\ ok = (o.repo \in Repos(s))
       /\ ok => /\ Repos(t) = Repos(s) \ {o.repo}
                /\ t.left \subseteq s.left
                /\ \A i \in DOMAIN t.pool : t.pool[i].ref = s.pool[i].ref -
                     (IF i \in AllAvail(s, o.repo) \cup AllDeltas(s, o.repo) THEN 1 ELSE 0)
       /\ ~ok => Unchanged(s, t)
  /\ o.op \notin {"create", "clone"} => Repos(t) \subseteq Repos(s)
  /\ o.op # "delete" => Repos(s) \subseteq Repos(t)

\* The properties that a step breaks
BrokenBy(u, s, o, ok, t) ==
  LET p == [C02 |-> P02(u, s, o, ok, t), C03 |-> P03(u, s, o, ok, t), C04 |-> P04(u, s, o, ok, t),
            C06 |-> P06(u, s, o, ok, t), C07 |-> P07(u, s, o, ok, t), C08 |-> P08(u, s, o, ok, t),
            C09 |-> P09(u, s, o, ok, t), C10 |-> P10(u, s, o, ok, t), C11 |-> P11(u, s, o, ok, t),
            C12 |-> P12(u, s, o, ok, t), C17 |-> P17(u, s, o, ok, t), C24 |-> P24(u, s, o, ok, t)]
  IN {k \in DOMAIN p : ~p[k]}

Requests == {"create", "delete", "import", "upload", "clone", "pull", "copy", "remove", "trim",
             "trimobs", "index", "delta", "produce", "include"}
=============================================================================
