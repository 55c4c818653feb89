SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MODE = "reversed"
  TEXTS = {"a"}
  KIDS = 2
INVARIANTS Unchanged Stable Faithful
