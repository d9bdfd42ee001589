CONSTANTS MaxLen = 12
INIT Init
NEXT Next
INVARIANT Export
