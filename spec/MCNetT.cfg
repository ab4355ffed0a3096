SPECIFICATION Spec
CONSTANTS
 MaxConn = 9
 MaxFault = 7
 Forced = TRUE
INVARIANTS NoViolation Contract Mapping
PROPERTIES Stable
