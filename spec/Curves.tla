-------------------------------- MODULE Curves --------------------------------
(***************************************************************************)
(* Sampled response curves: a sequence x of abscissae and a sequence y of     *)
(* responses of the same length (numerals).                                   *)
(***************************************************************************)
EXTENDS Dec, FiniteSets
Increasing(x) == \A i \in 1..(Len(x) - 1) : Lt(x[i], x[i+1])
(* sx, sy is a sorted, de-duplicated version of x, y *)
SortedOf(sx, sy, x, y) ==
    /\ Len(sx) = Len(sy) /\ Increasing(sx)
    /\ \A i \in 1..Len(sx) : \E j \in 1..Len(x) : Eq(x[j], sx[i]) /\ Eq(y[j], sy[i])
    /\ \A j \in 1..Len(x) : \E i \in 1..Len(sx) : Eq(x[j], sx[i])
Centroid(x, y, w) == Div(Trapz([i \in 1..Len(x) |-> Mul(Mul(y[i], x[i]), w[i])], x), Trapz([i \in 1..Len(x) |-> Mul(y[i], w[i])], x))
Where(y, P(_)) == {i \in 1..Len(y) : P(y[i])}
First(s) == CHOOSE i \in s : \A j \in s : i <= j
Last(s) == CHOOSE i \in s : \A j \in s : i >= j
Above(y, t) == LET P(v) == Gt(v, t) IN Where(y, P)
(* full width at half maximum: defined when two samples reach half of the maximum *)
AtHalf(y) == LET P(v) == Ge(v, Div(MaxSeq(y), "2")) IN Where(y, P)
FwhmDefined(y) == Cardinality(AtHalf(y)) >= 2
Fwhm(x, y) == Sub(x[Last(AtHalf(y))], x[First(AtHalf(y))])
(* cumulative energy in percent *)
Cum(y) == LET c[i \in 0..Len(y)] == IF i = 0 THEN "0" ELSE Add(c[i-1], y[i]) IN c
Percent(y) == [i \in 1..Len(y) |-> Mul(Div(Cum(y)[i], MaxSeq([k \in 1..Len(y) |-> Cum(y)[k]])), "100")]
LowSet(y, p) == LET q == Percent(y) IN {i \in 1..Len(y) : Ge(q[i], p)}
HighSet(y, p) == LET q == Percent(y) IN {i \in 1..Len(y) : Le(q[i], Sub("100", p))}
BoundsDefined(y, p) == LowSet(y, p) # {} /\ HighSet(y, p) # {}
Bounds(x, y, p) == <<x[First(LowSet(y, p))], x[Last(HighSet(y, p))]>>
=============================================================================
