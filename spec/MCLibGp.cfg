SPECIFICATION Spec
CONSTANTS
 Gp = TRUE
 MaxQ = 2
INVARIANT Inv
PROPERTY Rules
