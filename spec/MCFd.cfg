SPECIFICATION Spec
CONSTANTS N = 5
 LATE = FALSE
INVARIANTS Clean NoCtty
