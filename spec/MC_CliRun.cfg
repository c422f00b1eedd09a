SPECIFICATION Spec
CONSTANT MaxStatuses = 2
INVARIANTS Meant Export
CHECK_DEADLOCK FALSE
