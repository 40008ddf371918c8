SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SameState AsAsked Refused
