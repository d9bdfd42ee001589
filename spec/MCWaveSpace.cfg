CONSTANTS NX = 3
 MaxOps = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Order
INVARIANT Aligned
INVARIANT Once
INVARIANT IntegralPositive
