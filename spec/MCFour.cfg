SPECIFICATION Spec
INVARIANTS SumOfIntervals Reflected Scaled TakenBack RotationKeepsInterval ArrayForm NormSplits
CHECK_DEADLOCK FALSE
