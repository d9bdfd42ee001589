CONSTANTS Policy = "filter"
 MaxLen = 3
INIT GInit
NEXT GNext
INVARIANT Export
