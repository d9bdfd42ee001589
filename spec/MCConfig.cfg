CONSTANTS Memory = "none"
SPECIFICATION Spec
INVARIANTS Current DirsAlwaysThere NoSilentFallback ExplicitWins
CHECK_DEADLOCK FALSE
