SPECIFICATION Spec
CONSTANTS
 NE = 4
 NL = 3
 Double = TRUE
 Counted = TRUE
 Fixed = TRUE
 Dump = FALSE
INVARIANT Inv
VIEW View

