CONSTANTS Depth = 1
 Mode = "exh"
SPECIFICATION Spec
INVARIANT Export
CHECK_DEADLOCK FALSE
