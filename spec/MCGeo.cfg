SPECIFICATION Spec
INVARIANTS PointFixed PathIndependent Canonical CartVelocityFixed JacobiansInvert
CHECK_DEADLOCK FALSE
