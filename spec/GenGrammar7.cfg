SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
