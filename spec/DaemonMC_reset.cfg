SPECIFICATION Spec
CONSTANTS
  NAMES = {"a", "b"}
  KINDS = {"create", "delete"}
  MAX = 3
  RESETS = TRUE
  CUT = FALSE
  LIFO = FALSE
INVARIANTS Exact Ordered Serial Some Recorded
CHECK_DEADLOCK FALSE
