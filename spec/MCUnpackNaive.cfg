CONSTANTS Policy = "naive"
 MaxLen = 3
INIT MInit
NEXT MNext
INVARIANT Contained
INVARIANT OnlyEvilRefused
CHECK_DEADLOCK FALSE
