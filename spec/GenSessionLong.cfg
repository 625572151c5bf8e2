SPECIFICATION Spec
CONSTANTS MaxLen = 10 Pool = 10 MaxSet = 3 Nesting = TRUE Sample = TRUE Rich = TRUE
INVARIANTS Sound OneSerial Kept Emit

CHECK_DEADLOCK FALSE
