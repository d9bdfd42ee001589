CONSTANTS MaxDepth = 4
 SaveAtEntry = FALSE
SPECIFICATION Spec
INVARIANT Consistent
CHECK_DEADLOCK FALSE
