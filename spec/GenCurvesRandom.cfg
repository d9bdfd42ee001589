CONSTANTS MaxN = 3
 Mode = "random"
INIT Init
NEXT Next
INVARIANT Export
