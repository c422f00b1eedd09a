SPECIFICATION Spec
CONSTANTS
  Names <- MNames
  Good <- MGood
  Bad <- MBad
  Missing <- MMissing
INVARIANTS OpenHasResults ResultsAreNamed Export
PROPERTIES AllAlone RefusalIsClean ResultsStay
CHECK_DEADLOCK FALSE
