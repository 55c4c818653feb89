SPECIFICATION Spec
INVARIANTS Inv StepInv
CHECK_DEADLOCK FALSE
CONSTANTS
 RepoNames = {"p", "q"}
 FileIds = {"a1", "a2", "b1"}
 DistIds = {"d1"}
 Kinds = {"create", "delete", "import", "clone", "pull", "copy", "remove", "trim", "trimobs", "index", "assets"}
