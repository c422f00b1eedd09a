SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT AllIfFew FirstAndLast InOrder NeverMore MarkOnce Export
