SPECIFICATION TSpec
CONSTANT WordChars <- UWordChars
CONSTANT ItemPatterns <- UItemPatterns
CONSTANT ClassPatterns <- UClassPatterns
CONSTANT Defs <- UDefs
CHECK_DEADLOCK FALSE
INVARIANT EveryLinkOnce TExport
