SPECIFICATION Spec
INVARIANTS UndamagedIsFine AlwaysWrong Decided Export
CHECK_DEADLOCK FALSE
