SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MODE = "attribute"
  TEXTS = {"a"}
  KIDS = 2
INVARIANTS Unchanged Stable Faithful
