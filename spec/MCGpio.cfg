SPECIFICATION Spec
CONSTANTS Dirs = FALSE
 NOps = 3
INVARIANT Exact
