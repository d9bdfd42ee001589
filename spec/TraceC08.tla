------------------------------ MODULE TraceC08 ------------------------------
(***************************************************************************)
(* Operations on response sets.  State: the object as the specification    *)
(* sees it (space and curves, one per band and detector, in order).        *)
(***************************************************************************)
EXTENDS WaveSpace, TraceKit
VARIABLES l, st
St0 == [space |-> "wavelength", curves |-> <<>>]
Tol(e) == IF e.dt = "f4" THEN "1E-6" ELSE "1E-12"
CurveOk(got, exp, e) ==
    /\ NearSeq(got.x, exp.x, Tol(e), "0")
    /\ got.y = exp.y
CurvesOk(got, exp, e) == Len(got) = Len(exp) /\ \A k \in 1..Len(exp) : CurveOk(got[k], exp[k], e)

Fails(s, e) ==
    CASE e.act = "new" -> {}
      [] e.act = "convert" ->
           IF s.space = "wavelength"
           THEN Clause("converts", e.ok)
                \cup Clause("samples-aligned-and-ascending",
                            CurvesOk(e.curves, ConvertObj(s).curves, e) /\ \A k \in 1..Len(e.curves) : Ascending(e.curves[k].x))
                \cup Clause("unit-and-scale", e.unit = "cm-1" /\ Near(e.si_scale, "100", "0", "0"))
                \cup Clause("central-wavenumber",
                            \A k \in 1..Len(e.cwn) : Near(e.cwn[k], Centroid(ConvertObj(s).curves[k]), "1E-5", "0"))
                \cup Clause("wavelengths-gone", ~e.has_wavelength)
           ELSE Clause("second-conversion-refused", ~e.ok /\ "NotImplementedError" \in ToSet(e.errs))
                \cup Clause("refused-conversion-changes-nothing", e.same)
      [] e.act = "integral" ->
           Clause("response-integral", e.ok /\ \A k \in 1..Len(e.ints) :
                   Near(e.ints[k], Integral(s.curves[e.from + k - 1]), IF e.dt = "f4" THEN "1E-5" ELSE "1E-9", "1E-12"))
           \cup Clause("query-changes-nothing", e.same)
      [] e.act = "func" ->     \* functional form on the data of the object
           Clause("functional-conversion", e.ok /\ CurvesOk(e.curves, ConvertObj(s).curves, e))
           \cup Clause("functional-unit", e.ok => e.unit = "cm-1" /\ Near(e.si_scale, "100", "0", "0"))
           \cup Clause("functional-input-untouched", e.same)
           \cup Clause("functional-keeps-central-wavelength", e.ok => e.cw_kept)
      [] e.act = "dictresp" ->   \* several named responses on one axis
           Clause("dictionary-of-responses", e.ok /\ CurvesOk(e.curves, [k \in 1..Len(e.input) |-> ToWavenumber(e.input[k])], e) /\ e.same)
      [] e.act = "anyorder" ->   \* samples that are not in order
           Clause("samples-aligned-in-any-order",
                  /\ e.ok /\ Len(e.gx) = Len(e.x) /\ Len(e.gy) = Len(e.x)
                  /\ \A i \in 1..Len(e.x) : \E j \in 1..Len(e.x) : e.gy[j] = e.y[i] /\ Near(Mul(e.gx[j], e.x[i]), "10000", "1E-6", "0"))
      [] e.act = "query" -> Clause("query-works", e.ok) \cup Clause("query-changes-nothing", e.same)

Upd(s, e) ==
    CASE e.act = "new" -> [space |-> "wavelength", curves |-> e.curves]
      [] e.act = "convert" -> IF e.ok THEN [space |-> "wavenumber", curves |-> e.curves] ELSE s
      [] OTHER -> s
TInit == l = 1 /\ st = St0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
