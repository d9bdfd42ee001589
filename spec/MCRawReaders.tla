---------------------------- MODULE MCRawReaders ----------------------------
(***************************************************************************)
(* What every reader's curve must be like, for every reader, platform, band  *)
(* and small raw curve: ascending in micrometres, of as many points, with     *)
(* the peak at one where it is normalised, and the shape of the raw responses. *)
(***************************************************************************)
EXTENDS RawReaders
CONSTANT Design          \* "ours", or a wrong one
VARIABLES pair, band, raw, resp, out
Xs == {<<"8", "9", "11">>, <<"400", "401.5", "410">>}
Ys == {y \in [1..3 -> {"0", "0.5", "1", "40"}] : \E i \in 1..3 : y[i] # "0"}
Wrong(r, p, b, x, y) ==
    LET u == Unit(r, p, b) IN
    CASE Design = "no-reversal" -> [i \in 1..Len(x) |-> <<Micro(u, x[i]), y[i]>>]
      [] Design = "responses-not-reversed" -> [i \in 1..Len(x) |-> <<Micro(u, x[IF u = "cm-1" THEN Len(x) + 1 - i ELSE i]), y[i]>>]
      [] OTHER -> Curve(r, p, b, x, y)
Init == /\ pair \in Pairs
        /\ band \in {pair.bands[1], pair.bands[Len(pair.bands)]}
        /\ raw \in Xs /\ resp \in Ys /\ out = <<>>
Next == /\ out = <<>>
        /\ out' = Wrong(pair.r, pair.p, band, raw, resp)
        /\ UNCHANGED <<pair, band, raw, resp>>
Spec == Init /\ [][Next]_<<pair, band, raw, resp, out>>
Read == out # <<>>
Ascending == Read => \A i \in 1..Len(out) - 1 : Lt(out[i][1], out[i + 1][1])
Complete == Read => Len(out) = Len(raw)
PeakOne == Read /\ Normalised(pair.r) => Eq(MaxSeq([i \in 1..Len(out) |-> out[i][2]]), "1")
Fraction == Read /\ MayBePercent(pair.r) => Le(MaxSeq([i \in 1..Len(out) |-> out[i][2]]), "1")
(* the response of each raw point is found, scaled, at that point's own wavelength *)
OwnShape == Read => \A i, j \in 1..Len(raw) : \E k, m \in 1..Len(out) :
    /\ Eq(out[k][1], Micro(Unit(pair.r, pair.p, band), raw[i]))
    /\ Eq(out[m][1], Micro(Unit(pair.r, pair.p, band), raw[j]))
    /\ Eq(Mul(out[k][2], resp[j]), Mul(out[m][2], resp[i]))
Inv == Ascending /\ Complete /\ PeakOne /\ Fraction /\ OwnShape
=============================================================================
