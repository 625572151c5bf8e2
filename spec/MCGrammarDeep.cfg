SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANTS Agree Keeps Grouped
CHECK_DEADLOCK FALSE
