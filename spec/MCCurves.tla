------------------------------- MODULE MCCurves -------------------------------
(* Sanity of the definitions on every small curve: what the definitions imply. *)
EXTENDS Curves
CONSTANTS N
Ys == {"0", "0.25", "0.5", "1"}
VARIABLE y
X == [i \in 1..N |-> FromInt(i)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
One == [i \in 1..N |-> "1"]
Init == y \in [1..N -> Ys]
Next == UNCHANGED y
Positive == \E i \in 1..(N - 1) : Gt(Add(y[i], y[i+1]), "0")
CentroidInside == Positive => Between("1", Centroid(X, y, One), FromInt(N))
CentroidMirrors == Positive => Near(Add(Centroid(X, y, One), Centroid(X, Rev(y), One)), FromInt(N + 1), "1E-30", "0")
SortIdempotent == SortedOf(X, y, X, y) /\ SortedOf(X, y, Rev(X), Rev(y))
FwhmWithin == FwhmDefined(y) => Between("0", Fwhm(X, y), FromInt(N - 1))
BoundsOrdered == \A p \in {"1", "25"} : (Positive /\ BoundsDefined(y, p)) =>
                     \E i \in 1..N : X[i] = Bounds(X, y, p)[1] /\ Ge(Percent(y)[i], p)
=============================================================================
