SPECIFICATION Spec
CONSTANTS MaxSteps = 8
 FileSets = {"s1", "s2", "s3"}
 Replaced = {"s1", "s2"}
INVARIANTS LastChosen Fresh Export
CHECK_DEADLOCK FALSE
