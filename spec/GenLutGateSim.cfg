CONSTANTS Depth = 8
 Mode = "sim"
SPECIFICATION Spec
INVARIANT Export
CHECK_DEADLOCK FALSE
