SPECIFICATION Spec
CONSTANTS MaxLen = 2 Side = "aa"
INVARIANTS OnlyGood Remembers Emit
CHECK_DEADLOCK FALSE
