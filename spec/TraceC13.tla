------------------------------ MODULE TraceC13 ------------------------------
EXTENDS IrCorrection, TraceKit
VARIABLES l, st
Rt(e) == IF e.single THEN "2E-5" ELSE "1E-10"
Fails(s, e) ==
    CASE e.act = "corr" ->
           Clause("correction-derived", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
             Clause("same-shape", e.shape = e.inshape /\ Len(e.vals) = Len(e.t))
             \cup (IF Len(e.vals) # Len(e.t) THEN {} ELSE
               Clause("pointwise-formula", \A i \in 1..Len(e.t) :
                      e.inmask[i] \/ e.zmask[i] \/ (e.mask[i] /\ IsNaN(e.t[i])) \/ (~e.mask[i] /\ Near(e.vals[i], Corrected(e.t[i], e.z[i]), Rt(e), "0")))
               \cup Clause("masked-stays-masked", \A i \in 1..Len(e.t) : e.inmask[i] => e.mask[i])
               \cup Clause("input-unchanged", e.same)))
      [] e.act = "refuse" -> Clause("named-atmosphere-refused", ~e.ok)
      [] e.act = "accept" -> Clause("no-atmosphere-accepted", e.ok)
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
