SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS TruthOnly Symmetric Negation Mirror Ordered Inclusion Unusable Explained Quiet
CHECK_DEADLOCK FALSE
