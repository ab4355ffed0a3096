SPECIFICATION Spec
CONSTANTS
 MaxTok = 2
 MaxRead = 16
 Losses = 1
INVARIANT Inv
