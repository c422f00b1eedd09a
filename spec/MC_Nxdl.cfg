SPECIFICATION Spec
CONSTANT MaxItems = 3
INVARIANTS AllKept FirstKeeps Numbered Stable Export
CHECK_DEADLOCK FALSE
