SPECIFICATION Spec
INVARIANTS Inv StepInv
CHECK_DEADLOCK FALSE
CONSTANTS
 RepoNames = {"p", "q"}
 FileIds = {"a1", "a2", "a3"}
 DistIds = {}
 Kinds = {"create", "delete", "import", "clone", "pull", "copy", "remove", "trim", "index", "delta", "include"}
