SPECIFICATION Spec
CONSTANTS
 N = 9
 Mx = 4
INVARIANT Inv
