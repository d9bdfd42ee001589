----------------------------- MODULE GenWaveSpace -----------------------------
(* Sequences of operations on one response set.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
Ops == {"convert", "integral", "func", "func-again", "lookup", "wave", "copyfunc", "mixedfunc"}
VARIABLES h, c
Init == h = <<>> /\ c \in [ndet : {1, 2, 4}, nbands : {1, 3}, dt : {"f4", "f8"}, n : {2, 3, 30}]
Next == Len(h) < MaxLen /\ (\E o \in Ops : h' = Append(h, o)) /\ UNCHANGED c
Export == Len(h) = MaxLen => PrintT("@@" \o ToJson([ops |-> h, c |-> c]))
=============================================================================
