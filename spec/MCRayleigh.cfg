INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Bounded
INVARIANT Convex
INVARIANT Nodes
INVARIANT Clipping
INVARIANT RedMonotone
INVARIANT FactorOk
