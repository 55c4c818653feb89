SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MODE = "none"
  TEXTS = {"a", "b", "c"}
  KIDS = 2
INVARIANTS Unchanged Stable Faithful
