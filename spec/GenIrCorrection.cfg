INIT Init
NEXT Next
INVARIANT Export
