SPECIFICATION Spec
CONSTANTS Versions = {1, 2}
          Faults = 1
          Overwrites = TRUE
          Ordered = TRUE
          Atomic = TRUE
INVARIANTS TypeOK Complete Agree
PROPERTIES Robust Untouched PreparedFirst View
CHECK_DEADLOCK FALSE
