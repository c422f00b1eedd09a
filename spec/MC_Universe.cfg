SPECIFICATION USpec
CONSTANT WordChars <- UWordChars
CONSTANT ItemPatterns <- UItemPatterns
CONSTANT ClassPatterns <- UClassPatterns
CONSTANT Defs <- UDefs
CHECK_DEADLOCK FALSE
INVARIANT CatalogComplete ClassPathsHonest OneNameVerdict StrictIsRelaxed FindingsHaveItems OnePlotConclusion PlotConclusionOK DeclarationsAnswered Score Export
PROPERTY Kept
PROPERTY Ends
