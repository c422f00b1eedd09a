SPECIFICATION Spec
INVARIANTS Contained FilesTaken EnoughHasFiles OnePlace Export
CHECK_DEADLOCK FALSE
