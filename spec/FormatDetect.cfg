SPECIFICATION Spec
INVARIANTS Agree BlanksDoNotMatter NeverSilent
CHECK_DEADLOCK FALSE
