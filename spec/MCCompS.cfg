SPECIFICATION Spec
CONSTANTS
 NC = 3
 Rounds = 2
 Sparse = TRUE
INVARIANT Inv
