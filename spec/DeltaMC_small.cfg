CONSTANTS MaxFiles = 3
PATHS = {"a", "b", "c"}
CONTENTS = {"1", "2"}
InPlace = FALSE
SPECIFICATION Spec
INVARIANTS Right NoPart Tidy Says
PROPERTY Ends
CHECK_DEADLOCK FALSE
