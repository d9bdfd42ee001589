INIT GInit
NEXT Next
INVARIANT Export
