SPECIFICATION Spec
CONSTANT MaxStatuses = 3
INVARIANTS Meant Export
CHECK_DEADLOCK FALSE
