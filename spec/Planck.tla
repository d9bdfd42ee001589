-------------------------------- MODULE Planck --------------------------------
(***************************************************************************)
(* Black-body radiation in SI units and its inverse, in wavelength space   *)
(* (metre) and wavenumber space (1/metre).  Real arithmetic from Dec.      *)
(***************************************************************************)
EXTENDS Dec

HPlanck    == "6.62606957E-34"
KBoltzmann == "1.3806488E-23"
CSpeed     == "299792458"
C1 == Div(Mul(HPlanck, CSpeed), KBoltzmann)          \* h c / k
C2 == Mul("2", Mul(HPlanck, Mul(CSpeed, CSpeed)))    \* 2 h c^2

(* A temperature this close to zero has no radiance (NaN). *)
TZero == "0.000001"
TUndefined(t) == IsNaN(t) \/ ~Gt(AbsD(t), TZero)

PlanckWl(w, t) ==
    IF TUndefined(t) \/ IsNaN(w) THEN "nan"
    ELSE Div(Div(C2, PowD(w, "5")), Sub(ExpD(Div(Div(C1, w), t)), "1"))

PlanckWn(k, t) ==
    IF TUndefined(t) \/ IsNaN(k) THEN "nan"
    ELSE Div(Mul(C2, PowD(k, "3")), Sub(ExpD(Div(Mul(C1, k), t)), "1"))

Planck(form, w, t) == IF form = "wl" THEN PlanckWl(w, t) ELSE PlanckWn(w, t)

TempWl(w, r) == Div(C1, Mul(w, LnD(Add(Div(C2, Mul(r, PowD(w, "5"))), "1"))))
TempWn(k, r) == Div(Mul(C1, k), LnD(Add(Div(Mul(C2, PowD(k, "3")), r), "1")))
Temp(form, w, r) == IF form = "wl" THEN TempWl(w, r) ELSE TempWn(w, r)

-----------------------------------------------------------------------------
(* Properties of the two functions, as state predicates over a grid point  *)
(* (w metres, t and t2 > t kelvin).  Checked by TLC in MCPlanck.           *)
Inverts(w, t) ==
    /\ Near(TempWl(w, PlanckWl(w, t)), t, "1E-25", "0")
    /\ Near(TempWn(Div("1", w), PlanckWn(Div("1", w), t)), t, "1E-25", "0")
Monotone(w, t, t2) ==
    /\ Lt(PlanckWl(w, t), PlanckWl(w, t2))
    /\ Lt(PlanckWn(Div("1", w), t), PlanckWn(Div("1", w), t2))
(* B_lambda = B_k k^2 with k = 1/lambda: the same physical radiance. *)
SameRadiance(w, t) ==
    Near(PlanckWl(w, t), Mul(PlanckWn(Div("1", w), t), Div("1", Mul(w, w))), "1E-30", "0")
=============================================================================
