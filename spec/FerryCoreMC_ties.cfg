SPECIFICATION Spec
INVARIANTS Inv StepInv
CHECK_DEADLOCK FALSE
CONSTANTS
 RepoNames = {"p", "q"}
 FileIds = {"a1", "a2", "a2b", "a3"}
 DistIds = {}
 Kinds = {"create", "import", "clone", "pull", "copy", "remove", "trim"}
