CONSTANTS MaxFiles = 2
PATHS = {"a", "b", "c"}
CONTENTS = {"1", "2"}
InPlace = TRUE
SPECIFICATION Spec
INVARIANTS Right NoPart Tidy Says
CHECK_DEADLOCK FALSE
