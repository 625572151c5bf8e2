SPECIFICATION Spec
CONSTANTS MaxLen = 2 Users = 2 Atts = 2 Vals = 2 Asks = 5 Nesting = FALSE Rich = FALSE
INVARIANTS Own Emit
PROPERTIES Earned Idle
CHECK_DEADLOCK FALSE
