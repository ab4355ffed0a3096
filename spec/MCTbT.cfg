SPECIFICATION Spec
CONSTANTS
 MaxTok = 4
 MaxRead = 20
 Losses = 2
INVARIANT Inv
