CONSTANTS Procs = {"p", "q", "r"}
MaxStarts = 30
Recheck = TRUE
RemoveFirst = TRUE
StoresFirst = TRUE
ByOwner = FALSE
SPECIFICATION SSpec
CHECK_DEADLOCK FALSE
