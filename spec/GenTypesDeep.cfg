SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
