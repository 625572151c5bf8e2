SPECIFICATION Spec
INVARIANTS OnePassword OwnKeys Emit
CONSTANT MaxLen = 10
CHECK_DEADLOCK FALSE
