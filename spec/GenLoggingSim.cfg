CONSTANTS MaxLen = 14
 Mode = "sim"
INIT Init
NEXT Next
INVARIANT Export
