----------------------------- MODULE JobQueueMC -----------------------------
(* JobQueue explored completely for a few jobs and workers, with crashes at *)
(* any moment. The claims and retirements are single steps, which the trace *)
(* validation (JobQueueTrace) binds to the real store.                      *)
EXTENDS JobQueue

CONSTANTS Jobs, AsyncWorkers, Keep, Crashes

Workers == AsyncWorkers \cup {"s"}
KindOf(w) == IF w = "s" THEN "seq" ELSE "async"
VARIABLES st, pushed, kind, runs, done, resets, crashes, stopping
vars == <<st, pushed, kind, runs, done, resets, crashes, stopping>>

\* done: all outcomes in order, as <<job, h>>; runs: executions begun, as <<job, survived>>
Init == /\ st = Fresh(Workers) /\ pushed = 0 /\ kind = <<>> /\ runs = <<>> /\ done = <<>>
        /\ resets = [h \in {"ok", "fail"} |-> 0] /\ crashes = 0 /\ stopping = FALSE

PushJob == /\ pushed < Jobs /\ ~stopping
           /\ \E k \in Kinds : st' = Push(st, k, pushed + 1) /\ kind' = Append(kind, k)
           /\ pushed' = pushed + 1
           /\ UNCHANGED <<runs, done, resets, crashes, stopping>>
ClaimJob(w) == /\ ~stopping /\ st.work[w] = <<>> /\ FirstFree(st.q[KindOf(w)]) # 0
               /\ st' = Claim(st, KindOf(w), w)
               /\ runs' = Append(runs, Claimed(st, KindOf(w)))
               /\ UNCHANGED <<pushed, kind, done, resets, crashes, stopping>>
RetireJob(w) == /\ st.work[w] # <<>>
                /\ \E f \in BOOLEAN : /\ st' = Retire(st, w, f, Keep)
                                      /\ done' = Append(done, <<st.work[w][2], IF f THEN "fail" ELSE "ok">>)
                /\ UNCHANGED <<pushed, kind, runs, resets, crashes, stopping>>
ResetHistory == \E h \in {"ok", "fail"} : /\ st.hist[h] # <<>>
                                          /\ st' = Reset(st, h) /\ resets' = [resets EXCEPT ![h] = Len(done)]
                                          /\ UNCHANGED <<pushed, kind, runs, done, crashes, stopping>>
Crash == /\ crashes < Crashes /\ crashes' = crashes + 1 /\ st' = Restart(st) /\ stopping' = FALSE
         /\ runs' = SelectSeq(runs, LAMBDA n : \E i \in DOMAIN done : done[i][1] = n)
         /\ UNCHANGED <<pushed, kind, done, resets>>
Stop == ~stopping /\ stopping' = TRUE /\ UNCHANGED <<st, pushed, kind, runs, done, resets, crashes>>
Start == /\ stopping /\ \A w \in Workers : st.work[w] = <<>>
         /\ st' = Restart(st) /\ stopping' = FALSE /\ UNCHANGED <<pushed, kind, runs, done, resets, crashes>>

Next == PushJob \/ (\E w \in Workers : ClaimJob(w) \/ RetireJob(w)) \/ ResetHistory \/ Crash \/ Stop \/ Start
Fair == /\ \A w \in Workers : WF_vars(ClaimJob(w)) /\ WF_vars(RetireJob(w))
        /\ WF_vars(Start)
Spec == Init /\ [][Next]_vars
Live == Spec /\ Fair /\ SF_vars(ClaimJob("s")) /\ \A w \in AsyncWorkers : SF_vars(ClaimJob(w))

Queued == UNION {{e[1] : e \in Range(st.q[k])} : k \in Kinds}
Finished == {d[1] : d \in Range(done)}

\* Every accepted job is queued or has its one outcome
NoneLost == /\ Queued \cap Finished = {} /\ Queued \cup Finished = 1..pushed
            /\ Len(done) = Cardinality(Finished)
            /\ \A k \in Kinds : Cardinality({e[1] : e \in Range(st.q[k])}) = Len(st.q[k])
\* Nobody shares a job; what is claimed is what is being worked on
OneWorker == /\ \A a, b \in Workers : a # b /\ st.work[a] # <<>> => st.work[a] # st.work[b]
             /\ \A k \in Kinds : {e[1] : e \in {x \in Range(st.q[k]) : x[2]}} =
                                 {st.work[w][2] : w \in {x \in Workers : st.work[x] # <<>> /\ KindOf(x) = k}}
\* Begun once, apart from what a crash cut off
Once == \A i, j \in DOMAIN runs : i # j => runs[i] # runs[j]
\* Sequential jobs come to their end in the order in which they were accepted
InOrder == \A i, j \in DOMAIN done : i < j /\ kind[done[i][1]] = "seq" /\ kind[done[j][1]] = "seq" => done[i][1] < done[j][1]
\* All jobs are begun in that order within their queue
ClaimedInOrder == \A k \in Kinds : \A i, j \in DOMAIN st.q[k] : i < j => st.q[k][i][1] < st.q[k][j][1] /\ (st.q[k][j][2] => st.q[k][i][2])
History == \A h \in {"ok", "fail"} :
   LET since == SelectSeq(SubSeq(done, resets[h] + 1, Len(done)), LAMBDA d : d[2] = h)
   IN st.hist[h] = Newest([i \in DOMAIN since |-> since[i][1]], Keep)

AllRun == <>[](\A n \in 1..pushed : n \in Finished \/ stopping)
=============================================================================
