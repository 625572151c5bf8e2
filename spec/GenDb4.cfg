SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS NoBad Emit
PROPERTY Apart
CHECK_DEADLOCK FALSE
