SPECIFICATION Spec
CONSTANT MaxItems = 4
INVARIANTS AllKept FirstKeeps Numbered Stable Export
CHECK_DEADLOCK FALSE
