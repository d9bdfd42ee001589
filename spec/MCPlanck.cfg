CONSTANTS WMax = 40
 TMax = 1000
SPECIFICATION Spec
INVARIANTS InvInverts InvSame NonNegative ZeroIsUndefined
PROPERTY StepMonotone
CHECK_DEADLOCK FALSE
