SPECIFICATION Spec
CONSTANTS Files <- Some
          Versions = {1, 2, 3}
          Faults = 2
          Overwrites = TRUE
          Ordered = FALSE
          Atomic = TRUE
INVARIANTS TypeOK Complete Agree
PROPERTIES Untouched PreparedFirst View
CHECK_DEADLOCK FALSE
