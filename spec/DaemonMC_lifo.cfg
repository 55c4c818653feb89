SPECIFICATION Spec
CONSTANTS
  NAMES = {"a"}
  KINDS = {"create", "delete"}
  MAX = 3
  RESETS = FALSE
  CUT = FALSE
  LIFO = TRUE
INVARIANTS Exact Ordered Serial Some Recorded
CHECK_DEADLOCK FALSE
