SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MODE = "first"
  TEXTS = {"a"}
  KIDS = 2
INVARIANTS Unchanged Stable Faithful
