CONSTANTS MaxN = 4
 Mode = "small"
INIT Init
NEXT Next
INVARIANT Export
