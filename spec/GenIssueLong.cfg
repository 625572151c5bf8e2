SPECIFICATION Spec
CONSTANTS MaxLen = 12 Users = 3 Atts = 3 Vals = 3 Asks = 9 Nesting = TRUE Rich = TRUE
INVARIANTS Own Emit
CHECK_DEADLOCK FALSE
