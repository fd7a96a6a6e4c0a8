SPECIFICATION Spec
INVARIANTS Undamaged Provenance NoMore Growing Export
CHECK_DEADLOCK FALSE
