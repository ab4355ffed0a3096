SPECIFICATION Spec
CONSTANTS
 NC = 4
 Rounds = 2
 Sparse = TRUE
INVARIANT Inv
