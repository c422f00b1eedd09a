SPECIFICATION Spec
CONSTANT MaxWords = 4
INVARIANTS HowKnown RunHasNames Shorter Export
CHECK_DEADLOCK FALSE
