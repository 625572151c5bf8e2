SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANTS TruthOnly Symmetric Negation Mirror Ordered Inclusion Unusable Explained Quiet
CHECK_DEADLOCK FALSE
