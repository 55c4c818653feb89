CONSTANTS Procs = {"p", "q", "r"}
MaxStarts = 4
Recheck = TRUE
RemoveFirst = TRUE
StoresFirst = TRUE
ByOwner = FALSE
SPECIFICATION Spec
INVARIANTS AtMostOne Free
PROPERTY Ends
CHECK_DEADLOCK FALSE
