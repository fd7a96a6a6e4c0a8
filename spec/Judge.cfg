SPECIFICATION Spec
INVARIANTS Judged Export
CHECK_DEADLOCK FALSE
