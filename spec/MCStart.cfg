SPECIFICATION Spec
INVARIANTS OnlyGood Order Nothing Why Disabled
PROPERTIES Ends
CHECK_DEADLOCK FALSE
