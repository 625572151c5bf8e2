SPECIFICATION Spec
CONSTANTS MaxLen = 3 Pool = 9 MaxSet = 1 Nesting = FALSE Sample = FALSE Rich = FALSE
INVARIANTS Sound OneSerial Kept Emit
PROPERTIES Grows Quiet
CHECK_DEADLOCK FALSE
