------------------------------ MODULE MCRayleigh ------------------------------
EXTENDS Rayleigh
VARIABLE c
Digit(w, i, j, k) == Div(FromInt((w * 37 + i * 17 + j * 11 + k * 5) % 23), "23")
T == [wl |-> <<"400", "500", "750">>, sun |-> [lo |-> "1", hi |-> "4", n |-> 4], az |-> [lo |-> "0", hi |-> "180", n |-> 3],
      sat |-> [lo |-> "1", hi |-> "3", n |-> 3],
      v |-> [w \in 1..3 |-> [i \in 1..4 |-> [j \in 1..3 |-> [k \in 1..3 |-> Digit(w, i, j, k)]]]]]
Angles == {"-10", "0", "31", "60", "70.52877936550931", "75.6", "89", "90", "nan"}
Init == c \in [w : {"399", "450", "500", "700", "751"}, sun : Angles, sat : Angles, az : {"0", "45", "90", "180"}, red : {"none", "19", "20", "60", "100", "130"}]
Next == UNCHANGED c
P == [sun |-> c.sun, sat |-> c.sat, az |-> c.az, red |-> c.red]
Bounded == Between("0", Correction(T, c.w, P), "100")
(* a convex combination of table values, never outside of them *)
Convex == ~Outside(T, c.w) => Between("0", Interp(T, c.w, P), "0.96")
(* at table nodes: the table value *)
Nodes == (c.w = "500" /\ c.sun = "60" /\ c.sat = "0" /\ c.red = "none") =>
          \A j \in 1..3 : Near(Interp(T, "500", [P EXCEPT !.az = FromInt(180 - 90 * (j - 1))]), T.v[2][2][j][1], "1E-30", "1E-30")
(* missing or negative zenith angles count as zero, too large ones as the largest *)
Clipping == /\ (c.sun \in {"nan", "-10"}) => Eq(Correction(T, c.w, P), Correction(T, c.w, [P EXCEPT !.sun = "0"]))
            /\ (c.sat \in {"89", "90"}) => Eq(Correction(T, c.w, P), Correction(T, c.w, [P EXCEPT !.sat = "88"]))
RedMonotone == c.red # "none" => Le(Correction(T, c.w, P), Correction(T, c.w, [P EXCEPT !.red = "none"]))
FactorOk == LET z == IF IsNaN(c.sun) THEN "0" ELSE c.sun IN
            /\ Between("0", Factor(z, "70", "85", "1"), "1")
            /\ Le(z, "70") => Eq(Factor(z, "70", "85", "0.7"), "1")
            /\ Ge(z, "85") => Eq(Factor(z, "70", "85", "1"), "0")
            /\ Le(Factor(z, "70", "85", "1"), Factor(z, "70", "85", "0.5"))
=============================================================================
