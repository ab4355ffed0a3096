SPECIFICATION Spec
CONSTANTS MaxSteps = 5
INVARIANTS Stable Right Fits Fresh None
CHECK_DEADLOCK FALSE
