SPECIFICATION Spec
INVARIANTS NothingOpen OneAtMost Reported Tree Export
PROPERTIES Frame FailedLeavesObjects NoObjectFromNothing SavedIsThere
CHECK_DEADLOCK FALSE
