CONSTANTS NKeys = 20
 MaxPos = 0
 Mode = "plain"
INIT Init
NEXT Next
INVARIANT Export
