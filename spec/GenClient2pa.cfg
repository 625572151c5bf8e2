SPECIFICATION Spec
CONSTANTS MaxLen = 2 Side = "pa"
INVARIANTS OnlyGood Remembers Emit
CHECK_DEADLOCK FALSE
