SPECIFICATION Spec
CONSTANTS
 N = 7
 Mx = 4
INVARIANT Inv
