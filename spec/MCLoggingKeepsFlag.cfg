CONSTANTS ClearsFlag = FALSE
 MaxOps = 7
SPECIFICATION Spec
INVARIANT Refines
CHECK_DEADLOCK FALSE
