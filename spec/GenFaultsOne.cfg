CONSTANTS MaxK = 30
 Mode = "one"
INIT Init
NEXT Next
INVARIANT Export
