------------------------------ MODULE MCPlanck ------------------------------
(* Exhaustive check of the Planck module over a grid of wavelengths and     *)
(* temperature steps.                                                        *)
EXTENDS Planck
CONSTANTS WMax, TMax      \* grid: wavelengths 0.5..WMax/2 um, T = 20..TMax step 20
VARIABLES w, t
Wl(i) == Mul(FromInt(i), "5E-7")
Init == w \in 1..WMax /\ t = 20
Next == t + 20 <= TMax /\ t' = t + 20 /\ w' = w
Spec == Init /\ [][Next]_<<w, t>>
InvInverts == Inverts(Wl(w), FromInt(t))
InvSame == SameRadiance(Wl(w), FromInt(t))
StepMonotone == [][Monotone(Wl(w), FromInt(t), FromInt(t'))]_<<w, t>>
NonNegative == Gt(PlanckWl(Wl(w), FromInt(t)), "0")
ZeroIsUndefined == /\ PlanckWl(Wl(w), "0") = "nan" /\ PlanckWn(Wl(w), "-0.000001") = "nan"
                   /\ PlanckWl(Wl(w), "nan") = "nan" /\ PlanckWl(Wl(w), "0.0000011") # "nan"
=============================================================================
