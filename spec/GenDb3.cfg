SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS NoBad Emit
PROPERTY Apart
CHECK_DEADLOCK FALSE
