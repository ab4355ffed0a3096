SPECIFICATION Spec
CONSTANTS
 N = 8
 H = 1
INVARIANT Inv
