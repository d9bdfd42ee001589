CONSTANT MaxLen = 6
INIT Init
NEXT Next
INVARIANT Export
