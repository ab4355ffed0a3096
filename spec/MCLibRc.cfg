SPECIFICATION Spec
CONSTANTS
 Gp = FALSE
 MaxQ = 2
INVARIANT Inv
PROPERTY Rules
