CONSTANTS NKeys = 20
 MaxPos = 25
 Mode = "die"
INIT Init
NEXT Next
INVARIANT Export
