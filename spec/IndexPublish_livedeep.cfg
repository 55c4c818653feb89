SPECIFICATION Spec
CONSTANTS Versions = {1}
          Faults = 2
          Overwrites = TRUE
          Ordered = TRUE
          Atomic = TRUE
INVARIANTS TypeOK Complete Agree
PROPERTIES Recovers
CHECK_DEADLOCK FALSE
