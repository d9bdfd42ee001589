CONSTANTS NKeys = 20
 MaxPos = 0
 Mode = "conf"
INIT Init
NEXT Next
INVARIANT Export
