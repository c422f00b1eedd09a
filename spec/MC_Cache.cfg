SPECIFICATION Spec
CONSTANTS
  Source <- MSource
INVARIANTS DefaultIsASet SourceAlwaysThere UserHidesSource Export
PROPERTIES NamedOrRefused OnlyChoiceChanges
CHECK_DEADLOCK FALSE
