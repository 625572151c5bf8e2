SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
