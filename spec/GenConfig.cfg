CONSTANTS MaxLen = 16
INIT Init
NEXT Next
INVARIANT Export
