SPECIFICATION Spec
CONSTANTS
  MaxLen = 12
  MaxPool = 6
  Rich = TRUE
INVARIANTS Sound NoForgery Emit
CHECK_DEADLOCK FALSE
