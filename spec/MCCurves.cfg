CONSTANTS N = 5
INIT Init
NEXT Next
INVARIANTS CentroidInside CentroidMirrors SortIdempotent FwhmWithin BoundsOrdered
CHECK_DEADLOCK FALSE
