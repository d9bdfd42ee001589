----------------------------- MODULE BandRadiance -----------------------------
(***************************************************************************)
(* Radiance of a band for a brightness temperature: Planck's law weighted   *)
(* by the response (trapezoidal rule), the tabulated form of it, the way    *)
(* back, and the SEVIRI regression.  Abscissae in SI units.                  *)
(***************************************************************************)
EXTENDS Planck, Json, IOUtils

Weighted(form, x, y, t) == [i \in 1..Len(x) |-> Mul(y[i], Planck(form, x[i], t))]
Integrated(form, x, y, t) == Trapz(Weighted(form, x, y, t), x)
Normalised(form, x, y, t) == Div(Integrated(form, x, y, t), Trapz(y, x))
BandRad(form, x, y, t, norm) == IF norm THEN Normalised(form, x, y, t) ELSE Integrated(form, x, y, t)
Unit(form, norm) == IF ~norm THEN "W/m^2 sr^-1"
                    ELSE IF form = "wn" THEN "W/m^2 sr^-1 (m^-1)^-1" ELSE "W/m^2 sr^-1 m^-1"

(* ---- the table: temperatures first, first + res, ... *)
TbMin == "150"
TbMax == "360"
(* Index (from 0) of the entry for temperature t in a table of n entries     *)
(* starting at `first` with resolution res: t truncated to the resolution,   *)
(* saturating at both ends.  `first` is a multiple of res.                    *)
Index(t, first, res, n) ==
    IF ~IsFin(t) THEN (IF Gt(t, "0") THEN n - 1 ELSE 0)
    ELSE LET k == FloorD(Div(Sub(t, first), res)) IN
         IF Lt(k, "0") THEN 0 ELSE IF Gt(k, FromInt(n - 1)) THEN n - 1 ELSE ToInt(k)

(* ---- SEVIRI: coefficients nu_c (1/cm), alpha, beta (K) per band, platform *)
Seviri == JsonDeserialize(IOEnv.SPECDATA \o "/seviri.json")
SevBand == [WV_062 |-> "WV6.2", WV_073 |-> "WV7.3", IR_039 |-> "IR3.9", IR_087 |-> "IR8.7", IR_097 |-> "IR9.7",
            IR_108 |-> "IR10.8", IR_120 |-> "IR12.0", IR_134 |-> "IR13.4"]
SevKey(b) == IF b \in DOMAIN SevBand THEN SevBand[b] ELSE IF b = "IR6.2" THEN "WV6.2" ELSE IF b = "IR7.3" THEN "WV7.3" ELSE b
SevHas(b, p) == SevKey(b) \in DOMAIN Seviri /\ p \in DOMAIN Seviri[SevKey(b)]
SevCoef(b, p) == Seviri[SevKey(b)][p]
SevRad(co, t) ==
    LET v == Mul(co[1], "100") IN
    Div(Mul(C2, PowD(v, "3")), Sub(ExpD(Div(Mul(C1, v), Add(Mul(co[2], t), co[3]))), "1"))
SevTemp(co, r) ==
    LET v == Mul(co[1], "100") IN
    Sub(Div(Mul(C1, v), Mul(co[2], LnD(Add(Div(Mul(C2, PowD(v, "3")), r), "1")))), Div(co[3], co[2]))
=============================================================================
