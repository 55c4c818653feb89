SPECIFICATION Spec
CONSTANTS Total = 4
          Carry = TRUE
INVARIANTS Independent Plain Kept
CHECK_DEADLOCK FALSE
