CONSTANT Design = "responses-not-reversed"
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
