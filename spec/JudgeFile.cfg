SPECIFICATION JSpec
CONSTANT WordChars <- JWordChars
CONSTANT ItemPatterns <- JItemPatterns
CONSTANT ClassPatterns <- JClassPatterns
CONSTANT Defs <- JDefs
CHECK_DEADLOCK FALSE
