SPECIFICATION Spec
CONSTANTS StatN = 2 DynN = 2 MaxPools = 1 GcLevel = 2 MaxV = 4 MaxPoolId = 2 AllowMallocFail = TRUE WithTick = FALSE
VIEW View
INVARIANT Inv
INVARIANT AlwaysNew
PROPERTY OnlyOldest
PROPERTY GcTransparent
CHECK_DEADLOCK FALSE
