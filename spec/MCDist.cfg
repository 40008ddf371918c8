SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SameLength RoundTrip Consistent Order
