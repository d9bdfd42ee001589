CONSTANTS NKeys = 20
 MaxPos = 25
 Mode = "mixed"
INIT Init
NEXT Next
INVARIANT Export
