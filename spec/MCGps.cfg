SPECIFICATION Spec
CONSTANTS
 NU = 2
 MaxOp = 12
 LockedReset = TRUE
INVARIANT Inv
