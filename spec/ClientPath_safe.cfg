SPECIFICATION Spec
CONSTANTS
  CHARS = {"a", "4", "1", "%", "/", "?", "#", " "}
  LEN = 3
  ESCAPE = TRUE
INVARIANT Exact
CHECK_DEADLOCK FALSE
