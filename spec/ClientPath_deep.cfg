SPECIFICATION Spec
CONSTANTS
  CHARS = {"a", "4", "1", "%", "/", "?", "#", " "}
  LEN = 5
  ESCAPE = TRUE
INVARIANT Exact
CHECK_DEADLOCK FALSE
