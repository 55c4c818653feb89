SPECIFICATION Spec
VIEW View
CONSTANTS Ambiguous = TRUE
          Values = {1}
INVARIANTS Agree OneValue
PROPERTIES Isolated AllOrNothing Fresh
CHECK_DEADLOCK FALSE
