SPECIFICATION Spec
CONSTANTS
 MaxPl = 4
 MaxMsg = 2
INVARIANT Inv
