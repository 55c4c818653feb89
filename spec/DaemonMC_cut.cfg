SPECIFICATION Spec
CONSTANTS
  NAMES = {"a", "b"}
  KINDS = {"create", "delete", "index"}
  MAX = 4
  RESETS = FALSE
  CUT = TRUE
  LIFO = FALSE
INVARIANTS Exact Ordered Serial Some Recorded
CHECK_DEADLOCK FALSE
