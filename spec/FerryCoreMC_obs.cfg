SPECIFICATION Spec
INVARIANTS Inv StepInv
CHECK_DEADLOCK FALSE
CONSTANTS
 RepoNames = {"p", "q"}
 FileIds = {"a1", "a2", "b1", "d1"}
 DistIds = {"d0", "d1"}
 Kinds = {"create", "import", "clone", "pull", "trimobs", "index", "assets"}
