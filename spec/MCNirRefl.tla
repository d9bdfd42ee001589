------------------------------ MODULE MCNirRefl ------------------------------
(* A calculator and a sequence of requests: what is remembered between them   *)
(* is the latest pixel and its reflectance, nothing else (a CO2 correction    *)
(* does not survive the call it belongs to; a refused call changes nothing).  *)
EXTENDS NirRefl, FiniteSets
CONSTANTS MaxOps
VARIABLES last, corr, r, out, n
Ks == {[form |-> "wl", x |-> <<"0.0000036", "0.0000037", "0.0000039">>, y |-> <<"0.1", "1", "0.2">>, cw |-> "0.00000373",
        flux |-> "2", thr |-> t, limit |-> m, table |-> TRUE] : t \in {"85", "60"}, m \in {"85", "70", "none"}}
Suns == {"-1", "0", "59", "70", "70.5", "86", "nan"}
Pixels == [sun : Suns, nir : {"290.07", "230", "nan"}, th : {"270.03", "290", "nan"}, co2 : {"none", "255", "nan"}]
None == [sun |-> "nan", nir |-> "nan", th |-> "nan", co2 |-> "none"]
VARIABLE k
Init == k \in Ks /\ last = None /\ corr = "1" /\ r = "nan" /\ out = "nan" /\ n = 0
Reflectance(p) == /\ last' = p /\ corr' = Corr(p) /\ r' = Refl(k, p) /\ out' = out
Emission == /\ n > 0 /\ out' = Emissive(k, last, r) /\ UNCHANGED <<last, corr, r>>
Refused == UNCHANGED <<last, corr, r, out>>
Next == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED k
        /\ \/ \E p \in Pixels : Reflectance(p)
           \/ Emission
           \/ Refused
NoLeak == corr = Corr(last)
Defined == ~IsNaN(r) => /\ ~Missing(last) /\ Ge(Denom(k, last), EpsDenom)
                        /\ k.limit # "none" => Between("0", last.sun, k.limit)
(* no reflectance while the thermal band explains the measurement exactly *)
Zero == (~IsNaN(r) /\ last.co2 = "none" /\ Entry(last.nir) = Entry(last.th)) => Eq(r, "0")
(* reflectance one is a pixel as bright as the sun: bounded by the formula *)
Balance == ~IsNaN(r) => Near(LBand(k, last.nir),
                Add(Mul(Thermal(k, last), Sub("1", r)), Mul(r, Solar(k, last))), "1E-25", "1E-30")
=============================================================================
