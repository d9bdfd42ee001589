CONSTANT Depth = 9
INIT GenInit
NEXT GenNext
INVARIANT Export
