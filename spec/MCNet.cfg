SPECIFICATION Spec
CONSTANTS
 MaxConn = 6
 MaxFault = 4
 Forced = TRUE
INVARIANTS NoViolation Contract Mapping
PROPERTIES Stable
