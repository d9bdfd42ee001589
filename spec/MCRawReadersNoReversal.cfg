CONSTANT Design = "no-reversal"
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
