SPECIFICATION Spec
CONSTANTS
 MaxTok = 3
 MaxRead = 16
 Losses = 1
INVARIANT Inv
