CONSTANTS MaxDepth = 4
 SaveAtEntry = TRUE
SPECIFICATION Spec
INVARIANT Consistent
CHECK_DEADLOCK FALSE
