SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Agree Keeps Grouped
CHECK_DEADLOCK FALSE
