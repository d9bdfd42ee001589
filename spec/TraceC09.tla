------------------------------ MODULE TraceC09 ------------------------------
(***************************************************************************)
(* Recorded calls of the black-body functions against module Planck.       *)
(*  fwd : waves x temperatures -> radiances (row major: temperature, wave) *)
(*  inv : one wave, radiances -> temperatures                              *)
(*  rt  : temperatures -> radiances -> temperatures by the code itself     *)
(***************************************************************************)
EXTENDS Planck, TraceKit
VARIABLES l, st

Rt(e) == IF e.dt = "f4" THEN "2E-4" ELSE "1E-10"
At(e) == IF e.op = "inv" \/ e.op = "rt" THEN "0" ELSE IF e.dt = "f4" THEN "1E-15" ELSE "1E-285"

NW(e) == Len(e.waves)
Expected(e) ==
    IF e.op = "fwd"
    THEN [i \in 1..(Len(e.ins) * NW(e)) |->
            Planck(e.form, e.waves[((i - 1) % NW(e)) + 1], e.ins[((i - 1) \div NW(e)) + 1])]
    ELSE IF e.op = "inv"
    THEN [i \in 1..Len(e.ins) |-> Temp(e.form, e.waves[1], e.ins[i])]
    ELSE e.ins

ValueOk(e, exp) ==
    \A i \in 1..Len(exp) : e.mask[i] \/ Near(e.vals[i], exp[i], Rt(e), At(e))
MaskOk(e, exp) ==   \* masked stays masked; besides, only values without a temperature may be masked
    e.cont # "masked" \/ \A i \in 1..Len(exp) :
        /\ (e.inmask[i] => e.mask[i])
        /\ (e.mask[i] /\ ~e.inmask[i] => ~(IsFin(exp[i]) /\ Gt(exp[i], "0")))
Rising(e) ==   \* ascending valid temperatures, one wave: strictly larger radiances
    \A i \in 1..(Len(e.vals) - 1) : Lt(e.vals[i], e.vals[i + 1])

Fails(s, e) ==
    Clause("call-failed", e.ok)
    \cup (IF ~e.ok THEN {} ELSE
          LET exp == Expected(e) IN
          Clause("number-of-results", Len(e.vals) = Len(exp))
          \cup (IF Len(e.vals) # Len(exp) THEN {} ELSE
                Clause(CASE e.op = "fwd" -> "planck-law"
                         [] e.op = "inv" -> "inverse-planck"
                         [] OTHER -> "round-trip", ValueOk(e, exp))
                \cup Clause("mask-preserved", MaskOk(e, exp))
                \cup Clause("input-unchanged", e.unchanged)
                \cup Clause("strictly-increasing", e.op # "fwd" \/ ~e.ascending \/ Rising(e))))

Init == l = 1 /\ st = 0
Next == /\ l <= Len(Trace)
        /\ Report(l, Fails(st, Trace[l]))
        /\ l' = l + 1 /\ st' = st
TraceSpec == Init /\ [][Next]_<<l, st>>
=============================================================================
