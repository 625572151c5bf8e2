SPECIFICATION Spec
CONSTANTS MaxLen = 2 Pool = 7 MaxSet = 2 Nesting = FALSE Sample = FALSE Rich = FALSE
INVARIANTS Sound OneSerial Kept Emit
PROPERTIES Grows Quiet
CHECK_DEADLOCK FALSE
