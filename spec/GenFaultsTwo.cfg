CONSTANTS MaxK = 30
 Mode = "two"
INIT Init
NEXT Next
INVARIANT Export
