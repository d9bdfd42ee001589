CONSTANTS NKeys = 20
 MaxPos = 25
 Mode = "race"
INIT Init
NEXT Next
INVARIANT Export
