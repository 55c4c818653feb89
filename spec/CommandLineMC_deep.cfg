CONSTANTS LEN = 5
NODES = 3
WORDS = {"a", "2", "+2", "-1", "--", "-x"}
SPECIFICATION Spec
INVARIANTS Walked Faithful Numbers Distinct
CHECK_DEADLOCK FALSE
