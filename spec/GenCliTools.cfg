INIT Init
NEXT Next
INVARIANT Export
CHECK_DEADLOCK FALSE
