---------------------------- MODULE MCBandRadiance ----------------------------
EXTENDS BandRadiance, FiniteSets
VARIABLES c
Temps == {"-999", "0", "149.9", "150", "150.04", "150.05", "150.1", "217.3", "359.95", "359.99", "360", "4000", "1E30", "inf", "-inf"}
Ress == {"0.1", "0.05", "0.5", "1"}
Curves == {[x |-> <<"0.0000035", "0.0000037", "0.0000039">>, y |-> <<"0", "1", "0.3">>],
           [x |-> <<"0.00001", "0.0000105", "0.000011", "0.0000125">>, y |-> <<"0.2", "0.9", "1", "0">>]}
Init == c \in [k : {"idx"}, t : Temps, t2 : Temps, res : Ress]
          \cup [k : {"rad"}, cv : Curves, t : {"180", "250.3", "330"}]
          \cup [k : {"sev"}, b : {"WV_062", "IR6.2", "WV7.3", "IR_039", "IR3.9", "IR8.7", "IR_097", "IR10.8", "IR_120", "IR13.4"},
                p : {"Meteosat-8", "Meteosat-9"}, t : {"200", "273.15", "310"}]
Next == UNCHANGED c
N(res) == ToInt(Div("210", res))
(* the entry's temperature never exceeds the input inside the table and is    *)
(* within one step of it; saturation outside; monotone                        *)
IndexOk == c.k = "idx" =>
    LET i == Index(c.t, "150", c.res, N(c.res)) j == Index(c.t2, "150", c.res, N(c.res)) e == Add("150", Mul(c.res, FromInt(i))) IN
    /\ i \in 0..(N(c.res) - 1)
    /\ (Le("150", c.t) /\ Lt(c.t, "360")) => Le(e, c.t) /\ Lt(c.t, Add(e, c.res))
    /\ Lt(c.t, "150") => i = 0
    /\ Ge(c.t, "360") => i = N(c.res) - 1
    /\ Le(c.t, c.t2) => i <= j
(* The band radiance lies between the extremes of Planck over the band, and   *)
(* the two wave spaces give comparable physical radiances (times 1/l^2).      *)
RadOk == c.k = "rad" =>
    LET n == Normalised("wl", c.cv.x, c.cv.y, c.t)
        ps == [i \in 1..Len(c.cv.x) |-> Planck("wl", c.cv.x[i], c.t)] IN
    /\ Le(MinSeq(ps), n) /\ Le(n, MaxSeq(ps))
    /\ Near(Integrated("wl", c.cv.x, c.cv.y, c.t), Mul(n, Trapz(c.cv.y, c.cv.x)), "1E-30", "0")
    /\ Near(Normalised("wl", c.cv.x, [i \in 1..Len(c.cv.y) |-> Mul("7", c.cv.y[i])], c.t), n, "1E-30", "0")
SevOk == c.k = "sev" => SevHas(c.b, c.p) /\ Near(SevTemp(SevCoef(c.b, c.p), SevRad(SevCoef(c.b, c.p), c.t)), c.t, "1E-25", "0")
=============================================================================
