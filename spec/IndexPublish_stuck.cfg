SPECIFICATION Spec
CONSTANTS Files <- Some
          Versions = {1}
          Faults = 1
          Overwrites = FALSE
          Ordered = TRUE
          Atomic = TRUE
INVARIANTS TypeOK Complete Agree
PROPERTIES Robust
CHECK_DEADLOCK FALSE
