------------------------------- MODULE NirRefl -------------------------------
(***************************************************************************)
(* The 3.x micron reflectance calculator.  Per pixel                         *)
(*     r = (L(t3x) - c L(t11)) / (S - c L(t11))                               *)
(* with L the band-integrated radiance, c the CO2 correction and S the solar *)
(* radiance; undefined (NaN) where the denominator is below 0.005, where the  *)
(* sun is negative or beyond the masking limit, or an input is missing.       *)
(* A calculator k is [form, x, y (SI curve), cw (m), flux, thr, limit] with   *)
(* limit = "none" for no masking.  A pixel p is [sun, nir, th, co2] with      *)
(* co2 = "none" for no correction, "nan" for missing values.                  *)
(***************************************************************************)
EXTENDS BandRadiance

Res == "0.1"
NTable == 2100
(* temperature of the table entry used for t *)
Entry(t) == Add(TbMin, Mul(Res, FromInt(Index(t, TbMin, Res, NTable))))
Seen(k, t) == IF IsNaN(t) THEN "nan" ELSE IF k.table THEN Entry(t) ELSE t
LBand(k, t) == IF IsNaN(t) THEN "nan" ELSE Integrated(k.form, k.x, k.y, Seen(k, t))
LNorm(k, t) == Div(LBand(k, t), Trapz(k.y, k.x))

Corr(p) == IF p.co2 = "none" THEN "1"
           ELSE Div(PowD(Sub(p.th, Mul("0.25", Sub(p.th, p.co2))), "4"), PowD(p.th, "4"))
ClipSun(k, s) == IF IsNaN(s) THEN "nan" ELSE MinD(MaxD(s, "0"), k.thr)
Solar(k, p) == IF IsNaN(p.sun) THEN "nan" ELSE Div(Mul(k.flux, CosD(Deg2Rad(ClipSun(k, p.sun)))), Pi)

Missing(p) == IsNaN(p.sun) \/ IsNaN(p.nir) \/ IsNaN(p.th) \/ (p.co2 # "none" /\ IsNaN(p.co2))
SunMasked(k, p) == k.limit # "none" /\ (Lt(p.sun, "0") \/ Gt(p.sun, k.limit))
Thermal(k, p) == Mul(LBand(k, p.th), Corr(p))
Denom(k, p) == Sub(Solar(k, p), Thermal(k, p))
EpsDenom == "0.005"
Undefined(k, p) == Missing(p) \/ SunMasked(k, p) \/ Lt(Denom(k, p), EpsDenom)
Refl(k, p) == IF Undefined(k, p) THEN "nan" ELSE Div(Sub(LBand(k, p.nir), Thermal(k, p)), Denom(k, p))
(* Emissive part: the thermal radiance left by the reflectance r; the         *)
(* measured radiance where there is no reflectance.                            *)
Emissive(k, p, r) == IF IsNaN(r) THEN LNorm(k, p.nir) ELSE Mul(LNorm(k, p.th), Sub("1", r))
EmissiveTb(k, e) == IF k.form = "wl" THEN TempWl(k.cw, e) ELSE TempWn(Div("1", k.cw), e)
=============================================================================
