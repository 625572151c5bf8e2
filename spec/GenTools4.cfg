SPECIFICATION Spec
INVARIANTS OnePassword OwnKeys Emit
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
