SPECIFICATION Spec
INVARIANTS NoInterference Export
PROPERTIES OwnState
CHECK_DEADLOCK FALSE
