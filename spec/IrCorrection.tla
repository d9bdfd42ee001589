----------------------------- MODULE IrCorrection -----------------------------
(***************************************************************************)
(* Viewing-angle (limb cooling) correction of one pixel: brightness          *)
(* temperature t (K), satellite zenith angle z (degrees).                     *)
(***************************************************************************)
EXTENDS Dec
Ratio(v, v0, vref) == Div(Sub(v, v0), Sub(vref, v0))
Tau0(t) == Sub(PowD("10.85", Ratio(t, "210", "320")), "1")
Tau(t) == PowD(Ratio(t, "170", "295"), "4")
Delta(z) == Sub(PowD("7.2", Ratio(z, "0", "70")), "1")
Corrected(t, z) ==
    IF IsNaN(t) THEN "nan"
    ELSE IF Eq(z, "0") THEN Add(t, Tau0(t))
    ELSE IF Gt(z, "0") /\ Lt(z, "90") THEN Add(t, Mul(Tau(t), Delta(z)))
    ELSE t
=============================================================================
