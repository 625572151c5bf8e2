SPECIFICATION Spec
CONSTANTS MaxLen = 3 Users = 2 Atts = 2 Vals = 2 Asks = 4 Nesting = FALSE Rich = FALSE
INVARIANTS Own Emit
PROPERTIES Earned Idle
CHECK_DEADLOCK FALSE
