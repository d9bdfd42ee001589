CONSTANTS Procs = {p1, p2}
 Keys = "all"
 Atomic = TRUE
 FullName = TRUE
 MaxCrashes = 1
SPECIFICATION Spec
INVARIANT OwnTable
INVARIANT NeverPartial
PROPERTY KeepsTables
CHECK_DEADLOCK FALSE
