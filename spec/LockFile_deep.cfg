CONSTANTS Procs = {"p", "q", "r", "s"}
MaxStarts = 6
Recheck = TRUE
RemoveFirst = TRUE
StoresFirst = TRUE
ByOwner = FALSE
SPECIFICATION Spec
INVARIANTS AtMostOne Free

CHECK_DEADLOCK FALSE
