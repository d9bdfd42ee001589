CONSTANTS Depth = 2
 Mode = "sim"
SPECIFICATION Spec
INVARIANT OwnTables
PROPERTIES OnlyRequested CurrentUntouched
CHECK_DEADLOCK FALSE
