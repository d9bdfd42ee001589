------------------------------ MODULE TraceC10 ------------------------------
(* Recorded conversions against module BandRadiance (stateless events).      *)
EXTENDS BandRadiance, TraceKit
VARIABLES l, st
Form(e) == IF e.space = "wavenumber" THEN "wn" ELSE "wl"
Tol(e) == IF e.dt = "f4" THEN "5E-5" ELSE "1E-9"
(* The product of temperature and scale is rounded by the code's arithmetic:  *)
(* a temperature a few rounding errors away from a step may go either way.    *)
Slack(e) == IF e.dt = "f4" THEN "5E-7" ELSE "1E-14"
IdxSet(t, e) == IF ~IsFin(t) THEN {Index(t, e.first, e.res, e.n)}
                ELSE {Index(Sub(t, Mul(AbsD(t), Slack(e))), e.first, e.res, e.n), Index(t, e.first, e.res, e.n),
                      Index(Add(t, Mul(AbsD(t), Slack(e))), e.first, e.res, e.n)}
Fails(s, e) ==
    CASE e.op = "direct" ->
           Clause("band-radiance", e.ok /\ Len(e.vals) = Len(e.ins) /\ \A i \in 1..Len(e.ins) :
                  Near(e.vals[i], BandRad(Form(e), e.x, e.y, e.ins[i], e.norm), Tol(e), "0"))
           \cup Clause("radiance-unit", e.ok => e.unit = Unit(Form(e), e.norm))
           \cup Clause("input-unchanged", e.same)
      [] e.op = "table" ->
           Clause("table-made", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
              Clause("table-temperatures",
                     /\ \A i \in 1..Len(e.idx) : Near(e.tb[i], Add(TbMin, Mul(e.res, FromInt(e.idx[i]))), "1E-12", "0")
                     /\ Le(Add(TbMin, Mul(e.res, FromInt(e.n - 1))), TbMax)
                     /\ Ge(Add(TbMin, Mul(e.res, FromInt(e.n))), TbMax))
              \cup Clause("table-radiances", \A i \in 1..Len(e.idx) :
                     Near(e.rad[i], BandRad(Form(e), e.x, e.y, e.tb[i], e.norm), "1E-9", "0")))
      [] e.op = "lookup" ->
           Clause("table-look-up", e.ok /\ Len(e.got) = Len(e.ins) /\ \A i \in 1..Len(e.ins) : e.got[i] \in IdxSet(e.ins[i], e))
           \cup Clause("shape-kept", e.ok => e.shape = e.inshape)
           \cup Clause("radiance-unit", e.ok => e.unit = Unit(Form(e), e.norm))
           \cup Clause("input-unchanged", e.same)
      [] e.op = "back" ->
           Clause("temperature-from-central-wavelength", e.ok /\ Len(e.vals) = Len(e.ins) /\ \A i \in 1..Len(e.ins) :
                  Near(e.vals[i], Temp(Form(e), IF Form(e) = "wl" THEN Div(e.cw, "1000000") ELSE Div("1000000", e.cw), e.ins[i]), Tol(e), "0"))
      [] e.op = "sev" ->
           Clause("seviri-has-coefficients", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
              Clause("seviri-regression", \A i \in 1..Len(e.ins) : Near(e.rad[i], SevRad(SevCoef(e.band, e.plat), e.ins[i]), Tol(e), "0"))
              \cup Clause("seviri-inverts-itself", \A i \in 1..Len(e.ins) : Near(e.back[i], e.ins[i], Tol(e), "0"))
              \cup Clause("radiance-unit", e.unit = Unit("wn", TRUE)))
      [] e.op = "refuse" -> Clause("refused", ~e.ok)

TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
