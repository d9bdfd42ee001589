CONSTANTS MaxN = 3
 Mode = "small"
INIT Init
NEXT Next
INVARIANT Export
