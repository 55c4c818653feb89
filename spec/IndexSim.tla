------------------------------ MODULE IndexSim ------------------------------
(* Generates histories of index runs, some of which are made to fail or are *)
(* cut off by a crash at some point, and of changes in between.             *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

DEPTH == atoi(IOEnv.DEPTH)
POINTS == atoi(IOEnv.POINTS)   \* about as many points a run has
FAULTS == <<"fail", "crash", "crash", "full">>

VARIABLES hist
Pick(S) == RandomElement(S)

One(k) ==
  CASE k = "assets" -> [op |-> k, n |-> Pick(0..63)]
    [] k = "import" -> [op |-> k, n |-> Pick(0..9)]
    [] k = "fault" -> [op |-> "index", fault |-> FAULTS[Pick(1..Len(FAULTS))], at |-> Pick(0..POINTS)]
    [] k = "index" -> [op |-> "index", fault |-> "", at |-> 0]
    [] OTHER -> [op |-> k]

Mix == <<"assets", "assets", "assets", "import", "fault", "fault", "fault", "fault", "fault", "index", "restart">>

Init == hist = <<>>
Next ==
  /\ Len(hist) < DEPTH
  /\ \E k \in {Mix[Pick(1..Len(Mix))]} : \E o \in {IF Len(hist) = DEPTH - 1 THEN One("index") ELSE One(k)} :
       /\ hist' = Append(hist, o)
       /\ Len(hist') = DEPTH => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next]_hist
=============================================================================
