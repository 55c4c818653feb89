CONSTANTS MaxFiles = 4
PATHS = {"a", "b", "c", "d"}
CONTENTS = {"1", "2"}
InPlace = FALSE
SPECIFICATION Spec
INVARIANTS Right NoPart Tidy Says
CHECK_DEADLOCK FALSE
