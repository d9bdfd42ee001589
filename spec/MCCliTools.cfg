CONSTANT Forgets = TRUE
SPECIFICATION Spec
INVARIANT Right
INVARIANT NoneTwice
PROPERTY Ends
CHECK_DEADLOCK FALSE
