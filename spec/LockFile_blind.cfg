CONSTANTS Procs = {"p", "q", "r"}
MaxStarts = 4
Recheck = FALSE
RemoveFirst = TRUE
StoresFirst = TRUE
ByOwner = FALSE
SPECIFICATION Spec
INVARIANTS AtMostOne Free

CHECK_DEADLOCK FALSE
