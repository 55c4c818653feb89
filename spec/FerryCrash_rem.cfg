CONSTANTS Repos = {"R", "Q"}
Pkgs = {"a", "b"}
Kinds = {"add", "copy", "delete", "create", "index", "clone", "rem", "upload"}
CrashIn = {"rem"}
MaxJobs = 4
MaxCrashes = 1
Joined = TRUE
DirsFirst = TRUE
SPECIFICATION Spec
INVARIANTS Exact Kept Repaired

CHECK_DEADLOCK FALSE
