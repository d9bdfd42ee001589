------------------------------- MODULE Rayleigh -------------------------------
(***************************************************************************)
(* The Rayleigh/aerosol correction of one pixel.  A table T is               *)
(*  [wl : wavelengths (nm, ascending), sun, az, sat : [lo, hi, n] axes        *)
(*   (evenly spaced: secants and degrees), v : v[w][i][j][k] reflectances].   *)
(* A pixel p is [sun, sat, az, red]: degrees, red "none" without red band.    *)
(***************************************************************************)
EXTENDS Dec, FiniteSets

Outside(T, w) == Lt(w, T.wl[1]) \/ Gt(w, T.wl[Len(T.wl)])
OnEdge(T, w) == Eq(w, T.wl[1]) \/ Eq(w, T.wl[Len(T.wl)])
WIdx(T, w) == CHOOSE i \in 1..(Len(T.wl) - 1) : Lt(T.wl[i], w) /\ Le(w, T.wl[i + 1])

Secant(a) == Div("1", CosD(Deg2Rad(a)))
(* missing -> 0; limited to 0 .. the angle of the largest secant              *)
SecOf(ax, a) == IF IsNaN(a) \/ Le(a, "0") THEN "1"
                ELSE IF Ge(a, "90") THEN ax.hi ELSE MinD(Secant(a), ax.hi)
(* position on an axis: lower node (from 1) and fraction                      *)
Pos(ax, x) == LET u == Mul(Div(Sub(x, ax.lo), Sub(ax.hi, ax.lo)), FromInt(ax.n - 1))
                  f == ToInt(FloorD(u))
                  i == IF f < 0 THEN 0 ELSE IF f > ax.n - 2 THEN ax.n - 2 ELSE f
              IN [i |-> i + 1, f |-> Sub(u, FromInt(i))]
Mix(f, a, b) == Add(Mul(Sub("1", f), a), Mul(f, b))
(* linear in wavelength, then in the two secants and the azimuth coordinate   *)
Interp(T, w, p) ==
    LET wi == WIdx(T, w)
        wf == Div(Sub(w, T.wl[wi]), Sub(T.wl[wi + 1], T.wl[wi]))
        s == Pos(T.sun, SecOf(T.sun, p.sun))
        a == Pos(T.az, Sub("180", p.az))
        q == Pos(T.sat, SecOf(T.sat, p.sat))
        val(i, j, k) == Mix(wf, T.v[wi][i][j][k], T.v[wi + 1][i][j][k])
        ln(i, j) == Mix(q.f, val(i, j, q.i), val(i, j, q.i + 1))
        pl(i) == Mix(a.f, ln(i, a.i), ln(i, a.i + 1))
    IN Mix(s.f, pl(s.i), pl(s.i + 1))
(* a bright (cloudy) red band reduces the correction linearly from 20 to 100  *)
Relax(r, red) == IF red = "none" \/ Lt(red, "20") THEN r
                 ELSE Mul(Sub("1", Div(Sub(red, "20"), "80")), r)
Clip(r) == MinD(MaxD(r, "0"), "100")
Correction(T, w, p) == IF Outside(T, w) THEN "0" ELSE Clip(Relax(Mul("100", Interp(T, w, p)), p.red))

(* Effective wavelength (micrometre) of a band: centroid weighted by 1/l^4    *)
EffWl(x, y) == LET W(i) == Div(y[i], PowD(x[i], "4")) IN
    Div(Trapz([i \in 1..Len(x) |-> Mul(x[i], W(i))], x), Trapz([i \in 1..Len(x) |-> W(i)], x))

(* Reduction at high zenith angles *)
Factor(z, th, mx, st) ==
    LET f == IF Lt(z, th) THEN "1" ELSE Sub("1", Mul(st, Div(Sub(z, th), Sub(mx, th)))) IN MinD(MaxD(f, "0"), "1")
=============================================================================
