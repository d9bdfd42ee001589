------------------------------ MODULE TraceC12 ------------------------------
(* Recorded Rayleigh corrections against module Rayleigh.  The state holds   *)
(* the table of the chosen aerosol type and atmosphere.                       *)
EXTENDS Rayleigh, TraceKit
VARIABLES l, st
At(e) == IF e.single THEN "0.02" ELSE "1E-8"
Wave(e) == IF e.x = <<>> THEN e.w ELSE Mul("1000", EffWl(e.x, e.y))
PixelOk(T, w, p, v, e) ==
    IF p.red # "none" /\ IsNaN(p.red) THEN TRUE     \* a missing red band: not specified
    ELSE Near(v, Correction(T, w, p), "0", At(e))
Fails(T, e) ==
    CASE e.act = "tab" -> {}
      [] e.act = "get" ->
           Clause("correction-derived", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
             Clause("same-shape", e.shape = e.inshape)
             \cup Clause(IF Outside(T, Wave(e)) THEN "zero-outside-the-wavelength-range" ELSE "table-interpolation",
                         Len(e.vals) = Len(e.px) /\ LET w == Wave(e) IN \A i \in 1..Len(e.px) : PixelOk(T, w, e.px[i], e.vals[i], e))
             \cup Clause("same-kind-of-array", e.lazy = e.inlazy)
             \cup Clause("input-unchanged", e.same))
      [] e.act = "reduce" ->
           Clause("high-zenith-reduction", e.ok /\ Len(e.vals) = Len(e.z) /\ \A i \in 1..Len(e.z) :
                  Near(e.vals[i], Mul(e.r[i], Factor(e.z[i], e.th, e.mx, e.str)), IF e.single THEN "1E-4" ELSE "1E-9", IF e.single THEN "1E-3" ELSE "1E-9"))
      [] e.act = "refuse" -> Clause("error-raised", ~e.ok)
Upd(T, e) == IF e.act = "tab" THEN e.t ELSE T
TInit == l = 1 /\ st = [wl |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
