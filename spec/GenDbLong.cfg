SPECIFICATION Spec
CONSTANTS MaxLen = 12
INVARIANTS NoBad Emit
CHECK_DEADLOCK FALSE
