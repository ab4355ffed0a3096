SPECIFICATION Spec
CONSTANTS StatN = 2 DynN = 3 MaxPools = 3 GcLevel = 2 MaxV = 7 MaxPoolId = 4 AllowMallocFail = TRUE WithTick = TRUE
VIEW View
INVARIANT Inv
INVARIANT AlwaysNew
PROPERTY OnlyOldest
PROPERTY GcTransparent
CHECK_DEADLOCK FALSE
