SPECIFICATION Spec
CONSTANTS
 NE = 4
 NL = 2
 Double = TRUE
 Counted = TRUE
 Fixed = TRUE
 Dump = TRUE
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Show
