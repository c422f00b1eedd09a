SPECIFICATION JSpec
CONSTANTS
  Names <- JNames
  Good <- JGood
  Bad <- JBad
  Missing <- JMissing
CHECK_DEADLOCK FALSE
