SPECIFICATION Spec
CONSTANTS
 NE = 5
 NL = 3
 Double = TRUE
 Counted = TRUE
 Fixed = TRUE
 Dump = FALSE
INVARIANT Inv
VIEW View

