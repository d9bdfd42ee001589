INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Linear
INVARIANT ScaleFree
INVARIANT FlatSpectrum
