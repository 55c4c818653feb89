SPECIFICATION Spec
CONSTANTS Total = 5
          Carry = TRUE
INVARIANTS Independent Plain Kept
CHECK_DEADLOCK FALSE
