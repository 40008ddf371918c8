SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SameState Together Commutes Momentum Back Equal
