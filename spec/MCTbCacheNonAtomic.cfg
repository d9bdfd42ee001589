CONSTANTS Procs = {p1, p2}
 Keys = "small"
 Atomic = FALSE
 FullName = TRUE
 MaxCrashes = 2
SPECIFICATION Spec
INVARIANT OwnTable
INVARIANT NeverPartial
PROPERTY KeepsTables
CHECK_DEADLOCK FALSE
