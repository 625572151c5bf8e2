SPECIFICATION Spec
INVARIANTS NoLeak Emit
CONSTANT MaxLen = 12
CHECK_DEADLOCK FALSE
