CONSTANT Depth = 1
INIT GenInit
NEXT ExhNext
INVARIANT Export
