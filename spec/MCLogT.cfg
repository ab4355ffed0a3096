SPECIFICATION Spec
CONSTANTS Threads = {a, b, c} Msgs = 2 Pieces = 5 Emergs = {c} Locked = TRUE Protected = TRUE Flushed = TRUE
INVARIANTS Whole LockFree Flush
PROPERTY Finishes
CHECK_DEADLOCK FALSE
