SPECIFICATION Spec
CONSTANTS MaxLen = 3 Interps = 2 Tabs = 2 Atts = 1 Vals = 2 Types = 1 Policies = 1 Long = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
