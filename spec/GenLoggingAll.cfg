CONSTANTS MaxLen = 5
 Mode = "all"
INIT Init
NEXT Next
INVARIANT Export
