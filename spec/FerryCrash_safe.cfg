CONSTANTS Repos = {"R", "Q"}
Pkgs = {"a", "b"}
Kinds = {"add", "copy", "delete", "create", "index", "clone", "rem", "upload"}
CrashIn = {"add", "copy", "delete", "index"}
MaxJobs = 4
MaxCrashes = 2
Joined = TRUE
DirsFirst = TRUE
SPECIFICATION Spec
INVARIANTS Exact Kept Repaired
PROPERTY Ends
CHECK_DEADLOCK FALSE
