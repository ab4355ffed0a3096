CONSTANTS CfgLock = TRUE IoLock = TRUE Fds = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS One NoStray Told
PROPERTIES Completes Reconnects
CHECK_DEADLOCK FALSE
