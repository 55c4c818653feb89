SPECIFICATION Spec
CONSTANTS Total = 3
          Carry = FALSE
INVARIANTS Independent Plain Kept
CHECK_DEADLOCK FALSE
