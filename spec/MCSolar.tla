------------------------------- MODULE MCSolar -------------------------------
EXTENDS Solar
VARIABLE c
Ps == {<<"1">>, <<"2", "-1">>, <<"1", "0.5", "0.25">>, <<"0.3", "1", "-2", "1">>}
Rs == {<<"1">>, <<"0.2", "1">>, <<"0.1", "2", "-1.5">>, <<"0.5", "-1", "2", "-1">>}
Init == c \in [s : Ps, s2 : Ps, r : Rs, r2 : Rs, L : {"0.05", "0.4", "1"}, a : {"0.5", "3"}]
Next == UNCHANGED c
Scale(a, p) == [i \in 1..Len(p) |-> Mul(a, p[i])]
Plus(p, q) == [i \in 1..MaxI(Len(p), Len(q)) |-> Add(Coef(p, i), Coef(q, i))]
Linear == /\ Near(Flux(c.s, Scale(c.a, c.r), c.L), Mul(c.a, Flux(c.s, c.r, c.L)), "1E-30", "1E-30")
          /\ Near(Flux(c.s, Plus(c.r, c.r2), c.L), Add(Flux(c.s, c.r, c.L), Flux(c.s, c.r2, c.L)), "1E-30", "1E-30")
ScaleFree == Near(Irradiance(c.s, Scale(c.a, c.r), c.L), Irradiance(c.s, c.r, c.L), "1E-30", "1E-30")
FlatSpectrum == Near(Irradiance(<<"7">>, c.r, c.L), "7", "1E-30", "0")
=============================================================================
