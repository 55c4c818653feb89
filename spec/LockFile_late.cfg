CONSTANTS Procs = {"p", "q", "r"}
MaxStarts = 4
Recheck = TRUE
RemoveFirst = FALSE
StoresFirst = TRUE
ByOwner = FALSE
SPECIFICATION Spec
INVARIANTS AtMostOne Free

CHECK_DEADLOCK FALSE
