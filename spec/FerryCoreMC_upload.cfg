SPECIFICATION Spec
INVARIANTS Inv StepInv
CHECK_DEADLOCK FALSE
CONSTANTS
 RepoNames = {"p", "q"}
 FileIds = {"a1", "a2", "a2b", "bad"}
 DistIds = {"dx"}
 Kinds = {"create", "delete", "upload", "clone", "index", "assets", "mess", "restart"}
