SPECIFICATION Spec
INVARIANTS ActsAsMeant InverseUndoes InverseOfInverse SimplifyKeepsAction TrivialIsIdentity
CHECK_DEADLOCK FALSE
