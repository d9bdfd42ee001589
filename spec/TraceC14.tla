------------------------------ MODULE TraceC14 ------------------------------
(***************************************************************************)
(* Requests to a solar spectrum object against module Solar.  State: the     *)
(* answers given so far, per (quantity, band, detector, multiplier): the      *)
(* same request is answered alike whatever came in between, and scaling the   *)
(* response scales the flux and leaves the irradiance.                        *)
(***************************************************************************)
EXTENDS Solar, TraceKit
VARIABLES l, st
Tol(e) == IF e.dt = "f4" THEN "1E-3" ELSE "1E-8"
Known(s, e) == {a \in s : a.q = e.q /\ a.band = e.band /\ a.det = e.det}
Exact(e) == LET s == e.spec r == [i \in 1..Len(e.resp) |-> Mul(e.mult, e.resp[i])] IN
    IF e.q = "flux" THEN Near(e.val, Flux(s, r, e.L), Tol(e), FluxErr(s, r, e.L, e.hstep))
    ELSE Near(e.val, Irradiance(s, r, e.L), Tol(e), IrradianceErr(s, r, e.L, e.hstep))
Fails(s, e) ==
    CASE e.act = "new" -> Clause("spectrum-loaded", e.ok)
      [] e.act = "band" ->
           Clause("answered", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
             Clause(IF e.q = "flux" THEN "in-band-flux" ELSE "in-band-irradiance", e.file = "poly" => Exact(e))
             \cup Clause("same-answer-whatever-came-before", Near(e.val, e.fresh, "1E-12", "0"))
             \cup Clause("linear-in-the-response", \A a \in Known(s, e) :
                     Near(e.val, IF e.q = "flux" THEN Mul(a.val, Div(e.mult, a.mult)) ELSE a.val, IF e.dt = "f4" THEN "2E-3" ELSE "1E-6", "0"))
             \cup Clause("spectrum-and-response-unchanged", e.same))
      [] e.act = "const" ->
           Clause("solar-constant", e.ok /\ Near(e.val, e.ref, "1E-9", "0") /\ (e.x # <<>> => Near(e.val, Trapz(e.y, e.x), "1E-9", "0")))
           \cup Clause("spectrum-and-response-unchanged", e.same)
      [] e.act = "ipol" -> Clause("interpolates", e.ok) \cup Clause("spectrum-and-response-unchanged", e.same)
      [] e.act = "missing" -> Clause("missing-file-is-an-error", ~e.ok)
Upd(s, e) == CASE e.act = "new" -> {}
               [] e.act = "band" /\ e.ok -> s \cup {[q |-> e.q, band |-> e.band, det |-> e.det, mult |-> e.mult, val |-> e.val]}
               [] OTHER -> s
TInit == l = 1 /\ st = {}
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
