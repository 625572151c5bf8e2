SPECIFICATION Spec
CONSTANTS MaxLen = 3 Side = "pa"
INVARIANTS OnlyGood Remembers Emit
CHECK_DEADLOCK FALSE
