SPECIFICATION Spec
CONSTANTS
 MaxPl = 3
 MaxMsg = 2
INVARIANT Inv
