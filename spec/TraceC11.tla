------------------------------ MODULE TraceC11 ------------------------------
(***************************************************************************)
(* Requests to a reflectance calculator against NirRefl.  State: the         *)
(* calculator k, and the pixels and reflectances of its latest request.      *)
(* A calculator object may be shared by several histories, so the first      *)
(* emissive part of a history is only judged after a reflectance request.    *)
(***************************************************************************)
EXTENDS NirRefl, TraceKit
VARIABLES l, st
St0 == [k |-> [form |-> "wl"], px |-> <<>>, r |-> <<>>, single |-> FALSE, have |-> FALSE]
Eps(single) == IF single THEN "4E-6" ELSE "1E-9"
KFor(s, e) == [s.k EXCEPT !.table = e.table]
(* rounding error of the code, carried through the formula *)
Slack(k, p, eps) == Mul(eps, Add(Add(LBand(k, p.nir), Mul("2", Thermal(k, p))), Solar(k, p)))
PixelOk(k, p, v, eps) ==
    IF Missing(p) \/ SunMasked(k, p) THEN IsNaN(v)
    ELSE LET d == Denom(k, p) w == Slack(k, p, eps) IN
         IF Lt(d, Sub(EpsDenom, w)) THEN IsNaN(v)
         ELSE LET r == Div(Sub(LBand(k, p.nir), Thermal(k, p)), d) IN
              IF Le(d, Add(EpsDenom, w)) /\ IsNaN(v) THEN TRUE
              ELSE Near(v, r, "0", Div(Mul(w, Add("1", AbsD(r))), d))
EmisOk(k, p, r, v, eps) ==
    LET e == Emissive(k, p, r) IN
    IF IsNaN(e) THEN IsNaN(v)
    ELSE Near(v, e, "0", Mul(eps, Add(AbsD(e), IF IsNaN(r) THEN "0" ELSE Mul(LNorm(k, p.th), Add("1", AbsD(r))))))

Fails(s, e) ==
    CASE e.act = "new" ->
           Clause("calculator-created", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
             Clause("given-solar-flux-used", e.given # "none" => Near(e.k.flux, e.given, "0", "0"))
             \cup Clause("derived-solar-flux-of-own-band-and-detector", e.given = "none" => Near(e.k.flux, e.fluxref, "0.02", "0")))
      [] e.act \in {"refl", "big"} ->     \* big: the same pixels many times over, the copy that differs most
           Clause("reflectance-derived", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
             Clause("same-shape", e.shape = e.inshape)
             \cup Clause("reflectance-formula-and-undefined-pixels", Len(e.vals) = Len(e.px) /\
                         \A i \in 1..Len(e.px) : PixelOk(KFor(s, e), e.px[i], e.vals[i], Eps(e.single)))
             \cup Clause("undefined-pixels-of-masked-input-masked", e.wantmask =>
                         \A i \in 1..Len(e.vals) : IsNaN(e.vals[i]) => e.mask[i])
             \cup Clause("input-unchanged", e.same))
      [] e.act = "emis" ->
           IF ~s.have THEN {} ELSE
           Clause("emissive-part-derived", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
             Clause("emissive-part-of-latest-reflectance", Len(e.rad) = Len(s.px) /\
                    \A i \in 1..Len(s.px) : EmisOk(s.k, s.px[i], s.r[i], e.rad[i], Eps(s.single)))
             \cup Clause("emissive-temperature", Len(e.tb) = Len(e.rad) /\
                    \A i \in 1..Len(e.rad) : Gt(e.rad[i], "0") => Near(e.tb[i], EmissiveTb(s.k, e.rad[i]), IF s.single THEN "1E-4" ELSE "1E-9", "0")))
      [] e.act = "refuse" -> Clause("refused", ~e.ok)

Upd(s, e) ==
    CASE e.act = "new" -> [St0 EXCEPT !.k = e.k]
      [] e.act = "refl" -> IF e.ok /\ Len(e.vals) = Len(e.px)
                           THEN [s EXCEPT !.k = KFor(s, e), !.px = e.px, !.r = e.vals, !.single = e.single, !.have = TRUE]
                           ELSE [s EXCEPT !.have = FALSE]
      [] OTHER -> s
TInit == l = 1 /\ st = St0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
