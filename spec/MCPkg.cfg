SPECIFICATION Spec
CONSTANTS Fixed = TRUE
INVARIANTS Shows EndsWell
PROPERTIES Keeps Ends
CHECK_DEADLOCK FALSE
