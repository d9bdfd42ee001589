------------------------------ MODULE MCUnpack ------------------------------
EXTENDS Unpack
MInit == Init /\ dummy = 0
MNext == Step /\ UNCHANGED dummy
=============================================================================
