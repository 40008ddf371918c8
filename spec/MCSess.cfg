SPECIFICATION Spec
INVARIANTS KeepsRules Noticed Sound
CHECK_DEADLOCK FALSE
