------------------------------ MODULE TraceC20 ------------------------------
EXTENDS RawReaders, TraceKit
VARIABLES l, st
Tol(e) == "2E-7"
Close3(a, b, t) == Le(AbsD(Sub(a, b)), Add(Mul(t, AbsD(b)), "1E-18"))
Same(q, ex, t) == Len(q) = Len(ex) /\ \A i \in 1..Len(q) : Close3(q[i][1], ex[i][1], t) /\ Close3(q[i][2], ex[i][2], "3E-7")
SortPts(q) == SortSeq(q, LAMBDA z, w : Lt(z[1], w[1]))
Fails(s, e) ==
    LET raw == Curve(e.r, e.p, e.b, e.rawx, e.rawy)
        ex == IF e.act = "wavenumber" THEN [i \in 1..Len(raw) |-> <<Div("10000", raw[Len(raw) + 1 - i][1]), raw[Len(raw) + 1 - i][2]>>] ELSE IF e.act = "open" /\ e.r \in {"viirs", "metimage"} THEN SortPts(raw) ELSE raw
        got == Points(e.x, e.y)
    IN Clause("reads", e.ok)
       \cup IF ~e.ok THEN {} ELSE
         Clause("own-curve-in-its-unit", Len(e.x) = Len(e.y) /\ Same(Significant(e.r, got), Significant(e.r, ex), Tol(e)))
         \cup Clause("nothing-invented", Len(e.x) = Len(e.y) => \A i \in 1..Len(got) : \E j \in 1..Len(ex) : Close3(got[i][1], ex[j][1], Tol(e)))
         \cup (IF e.act = "read" THEN {} ELSE
               Clause("central-wavelength", LET q == IF DropsNegligible(e.r) THEN got ELSE ex IN
                      Close3(e.cw, Centroid([i \in 1..Len(q) |-> q[i][1]], [i \in 1..Len(q) |-> q[i][2]], [i \in 1..Len(q) |-> "1"]), "5E-6"))
               \cup IF e.act = "wavenumber" THEN {} ELSE
               Clause("bands-and-platform", ToSet(e.bands) = ToSet(e.want) /\ e.platform = e.p)
               \cup Clause("detectors", ToSet(e.dets) = ToSet(e.wantdets)))
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
