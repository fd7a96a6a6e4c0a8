SPECIFICATION Spec
INVARIANTS FunctionOfArguments CombinedNeverKvn Export
PROPERTIES Frame SavedIsWritten
CHECK_DEADLOCK FALSE
