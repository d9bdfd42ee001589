CONSTANTS Files = {f1, f2, f3}
 Chunks = 2
 MaxFaults = 3
 MarkerLast = TRUE
SPECIFICATION Spec
INVARIANTS Safe SuccessIsComplete
PROPERTY Recovers
CHECK_DEADLOCK FALSE
