SPECIFICATION Spec
CONSTANTS MaxLen = 3 Side = "aa"
INVARIANTS OnlyGood Remembers Emit
CHECK_DEADLOCK FALSE
