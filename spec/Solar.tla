-------------------------------- MODULE Solar --------------------------------
(***************************************************************************)
(* In-band solar quantities.  Spectrum and response are polynomials in       *)
(* u = x - x0 on the band [x0, x0 + L] (coefficient sequences, constant      *)
(* first): a cubic spline through samples of a cubic is that cubic, so the    *)
(* integrals below are exact up to the code's step h of integration.          *)
(***************************************************************************)
EXTENDS Dec, FiniteSets
MaxI(a, b) == IF a > b THEN a ELSE b
Coef(p, k) == IF k \in 1..Len(p) THEN p[k] ELSE "0"
PolyMul(p, q) == [n \in 1..(Len(p) + Len(q) - 1) |-> SumD([i \in 1..n |-> Mul(Coef(p, i), Coef(q, n - i + 1))])]
PolyInt(p, L) == SumD([i \in 1..Len(p) |-> Div(Mul(p[i], PowD(L, FromInt(i))), FromInt(i))])
(* a bound of |p''| on [0, L] *)
Bend(p, L) == SumD([i \in 1..Len(p) |-> IF i < 3 THEN "0" ELSE Mul(AbsD(p[i]), Mul(FromInt((i - 1) * (i - 2)), PowD(L, FromInt(i - 3))))])
(* error bound of the trapezoidal rule with steps of at most h *)
TrapzErr(p, L, h) == Div(Mul(L, Mul(Mul(h, h), Bend(p, L))), "12")
Flux(s, r, L) == PolyInt(PolyMul(s, r), L)
BandWidth(r, L) == PolyInt(r, L)
Irradiance(s, r, L) == Div(Flux(s, r, L), BandWidth(r, L))
FluxErr(s, r, L, h) == TrapzErr(PolyMul(s, r), L, h)
IrradianceErr(s, r, L, h) ==
    Div(Add(FluxErr(s, r, L, h), Mul(AbsD(Irradiance(s, r, L)), TrapzErr(r, L, h))), Sub(BandWidth(r, L), TrapzErr(r, L, h)))
=============================================================================
