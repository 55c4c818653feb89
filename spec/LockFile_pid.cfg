CONSTANTS Procs = {"p", "q", "r"}
MaxStarts = 4
Recheck = TRUE
RemoveFirst = TRUE
StoresFirst = TRUE
ByOwner = TRUE
SPECIFICATION Spec
INVARIANTS AtMostOne Free

CHECK_DEADLOCK FALSE
