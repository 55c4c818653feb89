--------------------------- MODULE CommandLineMC ----------------------------
(***************************************************************************)
(* Every command line of up to LEN words after the command, of words that  *)
(* matter; and the walk of import through every directory of up to NODES   *)
(* nodes, step by step.                                                    *)
(***************************************************************************)
EXTENDS CommandLine

CONSTANTS LEN, NODES, WORDS
Paths == {<<"create-repo">>, <<"remove", "repo">>, <<"delta">>, <<"index">>, <<"trim", "obsolete">>, <<"clone">>, <<"pull">>,
          <<"trim", "packages">>, <<"remove", "source">>, <<"copy", "source">>, <<"import">>, <<"status">>, <<"list", "repos">>, <<"nothing">>, <<>>}
Seqs == UNION {[1..n -> WORDS] : n \in 0..LEN}

VARIABLES inv, stack, got, res
vars == <<inv, stack, got, res>>

Node == [name : {"x86_64.eopkg", "1.delta.eopkg"}, kind : {"file", "dir", "link", "dangling"}, parent : 0..NODES, to : 0..NODES]
WellFormed(t) ==
  \A k \in 1..Len(t) :
    /\ t[k].parent < k /\ (t[k].parent # 0 => t[t[k].parent].kind = "dir")
    /\ \A j \in 1..(k - 1) : t[j].parent = t[k].parent => t[j].name # t[k].name
    /\ IF t[k].kind = "link"
       THEN t[k].to \in 1..(k - 1) /\ t[t[k].to].kind \in {"file", "dir"} /\ (t[t[k].to].kind = "dir" => \A j \in 1..Len(t) : t[j].parent = t[k].to => t[j].kind = "file")
       ELSE t[k].to = 0
Trees == UNION {{t \in [1..n -> Node] : WellFormed(t)} : n \in 1..NODES}

Lines == [path : Paths, rest : Seqs, tree : {<<>>}]
Imports == [path : {<<"import">>}, rest : {<<"r", "#1">>, <<"r", "#2", "#1">>, <<"r", "#0">>}, tree : Trees]
Init == /\ inv \in Lines \cup Imports
        /\ stack = (IF inv.tree = <<>> THEN <<>>
                    ELSE IF ROOT \in Range(inv.rest) THEN LET ts == {j \in 1..Len(inv.tree) : inv.tree[j].parent = 0}
                                                              o == CHOOSE o \in [1..Cardinality(ts) -> ts] : Range(o) = ts
                                                          IN [k \in DOMAIN o |-> [node |-> o[k], path |-> inv.tree[o[k]].name, arg |-> 1]]
                    ELSE [k \in 1..Len(SelectSeq(inv.rest, LAMBDA w : NodeOf(inv.tree, w) # 0)) |->
                      LET m == NodeOf(inv.tree, SelectSeq(inv.rest, LAMBDA w : NodeOf(inv.tree, w) # 0)[k]) IN [node |-> m, path |-> PathTo(inv.tree, m), arg |-> k]])
        /\ got = {} /\ res = "walking"

\* Looks at one thing after another, stopping at what cannot be opened
Walk == /\ stack # <<>> /\ res = "walking"
        /\ LET x == Head(stack)
               t == inv.tree
               real == IF t[x.node].kind = "link" THEN t[x.node].to ELSE x.node
               n == t[real]
               more == {j \in 1..Len(t) : t[j].parent = real}
           IN CASE n.kind = "dangling" -> res' = "refused" /\ UNCHANGED <<stack, got>>
                [] n.kind = "file" -> /\ got' = (IF Package(t[x.node].name) THEN got \cup {<<x.arg, x.path>>} ELSE got)
                                      /\ stack' = Tail(stack) /\ UNCHANGED res
                [] OTHER -> \E o \in {o \in [1..Cardinality(more) -> more] : Range(o) = more} :      \* in any order
                              /\ stack' = [k \in 1..Len(o) |-> [node |-> o[k], path |-> x.path \o "/" \o t[o[k]].name, arg |-> x.arg]] \o Tail(stack)
                              /\ UNCHANGED <<got, res>>
        /\ UNCHANGED inv
Done == stack = <<>> /\ res = "walking" /\ res' = "done" /\ UNCHANGED <<inv, stack, got>>
Next == Walk \/ Done
Spec == Init /\ [][Next]_vars

(* The walk finds what Asked says *)
Walked == (inv.tree # <<>> /\ res # "walking") =>
  LET o == Asked(inv) IN
    IF o.op = "none" THEN res = "refused" \/ (Len(inv.tree) < 2 /\ Len(inv.rest) = 3)
    ELSE res = "done" /\ got = UNION {{<<k, p>> : p \in o.groups[k]} : k \in DOMAIN o.groups}

(* Nothing is asked for that was not given, and nothing that was given is lost *)
Given(o) == (IF "repo" \in DOMAIN o THEN {o.repo} ELSE {}) \cup (IF "target" \in DOMAIN o THEN {o.target} ELSE {}) \cup (IF "source" \in DOMAIN o THEN {o.source} ELSE {})
Faithful == Given(Asked(inv)) \subseteq Range(inv.rest)
Numbers == LET o == Asked(inv) IN
             /\ "keep" \in DOMAIN o => o.keep > 0
             /\ "rel" \in DOMAIN o => o.rel = -1 \/ o.rel > 0
\* Where one word is another, so is what is asked for
Exchange(s, k, w) == [s EXCEPT ![k] = w]
Distinct == inv.tree = <<>> => \A k \in 1..Len(inv.rest) : \A w \in WORDS :
  LET j == [inv EXCEPT !.rest = Exchange(@, k, w)]
      same == /\ Asked(j) = Asked(inv)
              /\ Words(j.path, j.rest).args # Words(inv.path, inv.rest).args
  IN (Asked(inv).op # "none" /\ same) => Positive(inv.rest[k]) > 0 /\ Positive(w) = Positive(inv.rest[k])
=============================================================================
