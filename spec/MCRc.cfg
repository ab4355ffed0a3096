SPECIFICATION Spec
CONSTANTS
 N = 6
 H = 1
INVARIANT Inv
