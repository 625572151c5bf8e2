SPECIFICATION Spec
INVARIANTS NoLeak Emit
CONSTANT MaxLen = 3
CHECK_DEADLOCK FALSE
