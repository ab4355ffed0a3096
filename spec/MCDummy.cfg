CONSTANTS Told = TRUE Max = 6
SPECIFICATION Spec
INVARIANT All
PROPERTY Flows
CHECK_DEADLOCK FALSE
