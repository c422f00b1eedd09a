SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 FileSets = {"s1", "s2", "s3"}
 Replaced = {"s1"}
INVARIANTS LastChosen Fresh Export
CHECK_DEADLOCK FALSE
