CONSTANTS MaxLen = 4
INIT Init
NEXT Next
INVARIANT Export
