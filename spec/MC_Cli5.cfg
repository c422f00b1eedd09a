SPECIFICATION Spec
CONSTANT MaxWords = 5
INVARIANTS HowKnown RunHasNames Shorter Export
CHECK_DEADLOCK FALSE
