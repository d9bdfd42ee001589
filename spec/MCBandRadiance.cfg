INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT IndexOk
INVARIANT RadOk
INVARIANT SevOk
