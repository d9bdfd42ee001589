INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT IsCarried
INVARIANT Idempotent
INVARIANT Clean
INVARIANT Respected
INVARIANT OnlyNormalised
INVARIANT SameResolvesAlike
