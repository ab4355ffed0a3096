SPECIFICATION Spec
CONSTANTS StatN = 2 DynN = 2 MaxPools = 2 GcLevel = 2 MaxV = 6 MaxPoolId = 3 AllowMallocFail = TRUE WithTick = TRUE
VIEW View
INVARIANT Inv
INVARIANT AlwaysNew
PROPERTY OnlyOldest
PROPERTY GcTransparent
CHECK_DEADLOCK FALSE
