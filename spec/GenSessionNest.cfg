SPECIFICATION Spec
CONSTANTS MaxLen = 2 Pool = 7 MaxSet = 1 Nesting = TRUE Sample = FALSE Rich = TRUE
INVARIANTS Sound OneSerial Kept Emit
PROPERTIES Grows Quiet
CHECK_DEADLOCK FALSE
