SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MODE = "untrimmed"
  TEXTS = {"a"}
  KIDS = 2
INVARIANTS Unchanged Stable Faithful
