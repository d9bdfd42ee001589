------------------------------- MODULE TraceC18 -------------------------------
EXTENDS Curves, TraceKit
VARIABLES l, st
Tol(e) == IF e.dt = "f4" THEN "1E-5" ELSE "1E-11"
Peaked(y) == Gt(MaxSeq(y), "0")
Fails(s, e) ==
    CASE e.act = "sort" -> Clause("sorted", e.ok) \cup (IF e.ok THEN Clause("sorted-without-duplicates", SortedOf(e.sx, e.sy, e.x, e.y)) ELSE {}) \cup Clause("inputs-unchanged", e.same)
      [] e.act = "cwl" -> Clause("central-wave", e.ok /\ Near(e.val, Centroid(e.x, e.y, e.w), Tol(e), "0")) \cup Clause("inputs-unchanged", e.same)
      [] e.act = "range" ->
           LET a == Above(e.y, e.thr) IN
           (IF a = {} THEN Clause("range-undefined-is-an-error", ~e.ok)
            ELSE Clause("wave-range", e.ok /\ Len(e.val) = 3 /\ Eq(e.val[1], e.x[First(a)]) /\ Eq(e.val[3], e.x[Last(a)])
                                      /\ Near(e.val[2], Centroid(e.x, e.y, [i \in 1..Len(e.x) |-> "1"]), Tol(e), "0")))
           \cup Clause("inputs-unchanged", e.same)
      [] e.act = "fwhm" ->
           (IF ~FwhmDefined(e.y) THEN Clause("fwhm-undefined-is-an-error", ~e.ok /\ e.err = "ValueError")
            ELSE Clause("full-width-half-maximum", e.ok /\ Near(e.val, Fwhm(e.x, e.y), IF e.dt = "f4" THEN "1E-6" ELSE "1E-14", "0")))
           \cup Clause("inputs-unchanged", e.same)
      [] e.act = "bounds" ->
           (IF ~BoundsDefined(e.y, e.perc) THEN Clause("bounds-undefined-is-an-error", ~e.ok)
            ELSE Clause("energy-bounds", e.ok /\ Len(e.val) = 2 /\ Eq(e.val[1], Bounds(e.x, e.y, e.perc)[1]) /\ Eq(e.val[2], Bounds(e.x, e.y, e.perc)[2])))
           \cup Clause("inputs-unchanged", e.same)
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
