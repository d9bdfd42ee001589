CONSTANT MaxOps = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT NoLeak
INVARIANT Defined
INVARIANT Zero
INVARIANT Balance
