SPECIFICATION Spec
CONSTANTS MaxLen = 14 Interps = 4 Tabs = 3 Atts = 4 Vals = 4 Types = 4 Policies = 3 Long = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
