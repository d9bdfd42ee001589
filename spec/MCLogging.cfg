CONSTANTS ClearsFlag = TRUE
 MaxOps = 7
SPECIFICATION Spec
INVARIANT Refines
CHECK_DEADLOCK FALSE
