INIT Init
NEXT Next
INVARIANT Total
INVARIANT Precedence
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
