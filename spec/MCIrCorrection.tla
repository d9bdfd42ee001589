---------------------------- MODULE MCIrCorrection ----------------------------
EXTENDS IrCorrection
VARIABLE c
Init == c \in [t : {"150", "170", "210", "250.5", "295", "320", "340", "nan"}, z : {"-20", "-0.5", "0", "0.01", "35", "70", "89.99", "90", "120", "nan"}]
Next == UNCHANGED c
R == Corrected(c.t, c.z)
Warms == (~IsNaN(c.t) /\ Gt(c.z, "0") /\ Lt(c.z, "90")) => Ge(R, c.t)     \* the limb is cooled, never warmed
Untouched == (~IsNaN(c.t) /\ (IsNaN(c.z) \/ Lt(c.z, "0") \/ Ge(c.z, "90"))) => R = c.t
Missing == IsNaN(c.t) => IsNaN(R)
Reference == (c.t = "295" /\ c.z = "70") => Near(R, "301.2", "1E-25", "0")
Growing == (~IsNaN(c.t) /\ Gt(c.z, "0") /\ Lt(c.z, "89")) => Le(R, Corrected(c.t, Add(c.z, "1")))
=============================================================================
