------------------------------- MODULE GenSolar -------------------------------
(* Histories of requests to one spectrum object.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
Objs == [space : {"wavelength", "wavenumber"}, file : {"poly", "default"}, step : {"default", "fine", "finest"}, dt : {"f8", "f4"}]
Band == [op : {"flux", "irr"}, band : 1..3, det : {1, 2, 3, 12}, form : {"dict", "single", "nodet", "alone"}, scale : {"1", "0.001", "0.01", "1000000"}, mult : {"1", "2.5", "0.000001", "400000"}]
Other == {[op |-> "const"], [op |-> "ipol"], [op |-> "ipol-ival"], [op |-> "missing"]}
VARIABLES h, c
Init == h = <<>> /\ c \in Objs
Draw(hist) == IF RandomElement(1..10) <= 8 THEN RandomElement(Band) ELSE RandomElement(Other)
Next == Len(h) < MaxLen /\ h' = Append(h, Draw(h)) /\ UNCHANGED c
Export == Len(h) = MaxLen => PrintT("@@" \o ToJson([ops |-> h, c |-> c]))
=============================================================================
