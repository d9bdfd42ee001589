CONSTANTS Policy = "filter"
 MaxLen = 2
INIT GInit
NEXT GNext
INVARIANT Export
