SPECIFICATION Spec
CONSTANTS
 NE = 4
 NL = 3
 Double = FALSE
 Counted = TRUE
 Fixed = TRUE
 Dump = TRUE
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Show
