SPECIFICATION Spec
INVARIANTS Distinct Emit
CONSTANT MaxLen = 4
CONSTANT Width = 4
CHECK_DEADLOCK FALSE
