INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Warms
INVARIANT Untouched
INVARIANT Missing
INVARIANT Reference
INVARIANT Growing
