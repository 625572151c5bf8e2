SPECIFICATION Spec
INVARIANTS Own NotOther Emit
CHECK_DEADLOCK FALSE
