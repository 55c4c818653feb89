CONSTANTS Repos = {"R", "Q"}
Pkgs = {"a", "b"}
Kinds = {"add", "copy", "delete", "create", "index", "clone", "rem", "upload"}
CrashIn = {"add", "copy", "delete", "index"}
MaxJobs = 6
MaxCrashes = 2
Joined = TRUE
DirsFirst = TRUE
SPECIFICATION Spec
INVARIANTS Exact Kept Repaired

CHECK_DEADLOCK FALSE
