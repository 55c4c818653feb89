SPECIFICATION Spec
VIEW View
CONSTANTS Ambiguous = FALSE
          Values = {1}
INVARIANTS Agree OneValue
PROPERTIES Isolated AllOrNothing Fresh InnerNothing
CHECK_DEADLOCK FALSE
