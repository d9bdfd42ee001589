CONSTANT Forgets = FALSE
SPECIFICATION Spec
INVARIANT Right
INVARIANT NoneTwice
PROPERTY Ends
CHECK_DEADLOCK FALSE
