SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MODE = "again"
  TEXTS = {"a"}
  KIDS = 2
INVARIANTS Unchanged Stable Faithful
