----------------------------- MODULE MCWaveSpace -----------------------------
(* Small curves, sequences of operations: alignment of samples, order, one  *)
(* conversion only, integrals.                                               *)
EXTENDS WaveSpace
CONSTANTS NX, MaxOps
VARIABLES o, orig, n
Xs == {"0.5", "1", "2", "3", "8"}
Ys == {"0", "1", "3"}
Curves == UNION {{[x |-> xs, y |-> ys] : xs \in {s \in [1..k -> Xs] : Ascending(s)}, ys \in [1..k -> Ys]} : k \in 2..NX}
Init == /\ \E c \in Curves : o = [space |-> "wavelength", curves |-> <<c>>]
        /\ orig = o /\ n = 0
Next == n < MaxOps /\ n' = n + 1 /\ o' = ConvertObj(o) /\ UNCHANGED orig
Order == \A k \in DOMAIN o.curves : Ascending(o.curves[k].x)
(* every response still belongs to its own spectral point *)
Aligned == LET a == orig.curves[1] b == o.curves[1] IN
    /\ Len(a.x) = Len(b.x) /\ Len(b.y) = Len(b.x)
    /\ o.space = "wavenumber" => \A i \in 1..Len(a.x) : \E j \in 1..Len(b.x) :
           Near(Mul(a.x[i], b.x[j]), "10000", "1E-30", "0") /\ a.y[i] = b.y[j]
Once == n >= 1 => o = ConvertObj(orig)
IntegralPositive == LET c == o.curves[1] IN
    (\E i \in 1..Len(c.y) : Gt(c.y[i], "0")) => Gt(Integral(c), "0")
=============================================================================
