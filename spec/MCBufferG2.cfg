SPECIFICATION Spec
CONSTANTS StatN = 2 DynN = 1 MaxPools = 2 GcLevel = 2 MaxV = 5 MaxPoolId = 3 AllowMallocFail = TRUE WithTick = FALSE
VIEW View
INVARIANT Inv
INVARIANT AlwaysNew
PROPERTY OnlyOldest
PROPERTY GcTransparent
CHECK_DEADLOCK FALSE
