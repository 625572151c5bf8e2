SPECIFICATION Spec
CONSTANTS MaxLen = 4 Pool = 10 MaxSet = 2 Nesting = FALSE Sample = FALSE Rich = FALSE
INVARIANTS Sound OneSerial Kept 
VIEW StateView
CHECK_DEADLOCK FALSE
