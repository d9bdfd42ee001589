------------------------------ MODULE TraceC21 ------------------------------
EXTENDS CliTools, TraceKit
VARIABLES l, st
Near2(u, v) == Le(AbsD(Sub(u, v)), Add(Mul("1E-9", AbsD(v)), "1E-15"))
SamePts(x, y, pts) == Len(x) = Len(pts) /\ Len(y) = Len(pts) /\ \A i \in 1..Len(pts) : Near2(x[i], pts[i][1]) /\ Near2(y[i], pts[i][2])
(* lines drawn, as a bag: every wanted line is drawn exactly once, and nothing that is not allowed *)
Count(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
Limits(lim, got) == lim = <<>> \/ (Near2(got[1], lim[1]) /\ Near2(got[2], lim[2]))
Sat(e) == Opened(e.store, e.a.p, e.a.s)[1]
FindFails(e) ==
    LET sat == Sat(e)
        names == IF e.a.band = "" THEN [i \in 1..Len(sat.bands) |-> sat.bands[i].name] ELSE <<e.a.band>>
        Ok(r) == LET v == RangeOf(DetOf(BandOf(sat, IF e.a.band = "" THEN r.name ELSE e.a.target), e.a.det), e.a.thr) IN
                 Len(r.w) = 3 /\ \A k \in 1..3 : Le(AbsD(Sub(r.w[k], v[k])), "0.000501")
    IN Clause("tool-answers", e.ok)
       \cup IF ~e.ok THEN {} ELSE
          Clause("bands-asked-for", Len(e.printed) = Len(names) /\ {e.printed[i].name : i \in 1..Len(e.printed)} = ToSet(names))
          \cup Clause("range-and-centre", \A i \in 1..Len(e.printed) : e.printed[i].name \in ToSet(names) => Ok(e.printed[i]))
Frame(e) == Clause("title", e.fig.title = e.a.title)
            \cup Clause("limits", Limits(e.a.xlim, e.fig.xlim) /\ Limits(e.a.ylim, e.fig.ylim))
PlotFails(e) ==
    LET sat == Sat(e)
        cand == IF e.a.band # "" THEN <<BandOf(sat, e.a.band)>> ELSE ByWave(sat, e.a.wavelength, "0.1")
    IN Clause("tool-answers", e.ok)
       \cup IF ~e.ok THEN {} ELSE
          Clause("one-file", Len(e.files) = 1 /\ Len(e.figs) = 1)
          \cup IF Len(e.figs) # 1 THEN {} ELSE
          Frame(e)
          \cup Clause("every-detector-of-the-band", \E b \in ToSet(cand) :
                 LET want == PlotOne(sat, b, e.a.min) IN
                 Len(e.fig.lines) = Len(want) /\ \A i \in 1..Len(want) : LET P(g) == SamePts(g.x, g.y, want[i]) IN Count(e.fig.lines, P) >= 1)
CompFails(e) ==
    LET sats == Sats(e.store, e.a)
        must == Lines(sats, e.a, Must)
        may == Lines(sats, e.a, May)
        Drawn(w) == LET P(g) == g.label = w.label /\ SamePts(g.x, g.y, w.pts) IN Count(e.fig.lines, P)
    IN Clause("tool-answers", e.ok)
       \cup IF ~e.ok THEN {}
       ELSE IF sats = <<>> THEN Clause("nothing-to-plot", e.files = <<>>)
       ELSE Clause("one-file", Len(e.files) = 1 /\ Len(e.figs) = 1 /\ (e.a.out # "" => e.files = <<e.a.out>>))
            \cup IF Len(e.figs) # 1 THEN {} ELSE
            Frame(e)
            \cup Clause("wanted-bands-once", \A i \in 1..Len(must) : Drawn(must[i]) = 1)
            \cup Clause("nothing-else", \A g \in ToSet(e.fig.lines) : \E w \in ToSet(may) : g.label = w.label /\ SamePts(g.x, g.y, w.pts))
            \cup Clause("legend", e.fig.legend = [i \in 1..Len(e.fig.lines) |-> e.fig.lines[i].label])
SolarFails(e) ==
    LET n == Len(e.wl)
        want == IF e.space = "wavenumber" THEN [i \in 1..n |-> <<Div("10000", e.wl[n + 1 - i]), Mul(Mul(e.irr[n + 1 - i], "0.1"), Mul(e.wl[n + 1 - i], e.wl[n + 1 - i]))>>]
                ELSE [i \in 1..n |-> <<e.wl[i], e.irr[i]>>]
    IN Clause("tool-answers", e.ok)
       \cup IF ~e.ok THEN {} ELSE
          Clause("one-file", e.files = <<e.a.out>> /\ Len(e.figs) = 1)
          \cup IF Len(e.figs) # 1 THEN {} ELSE
          Clause("the-spectrum", Len(e.fig.lines) = 1 /\ SamePts(e.fig.lines[1].x, e.fig.lines[1].y, want))
          \cup Clause("colour", e.color = "default" \/ e.fig.lines[1].color = e.color)
          \cup Clause("settings-unchanged", e.kept)
Fails(s, e) == CASE e.tool = "solar" -> SolarFails(e) [] e.tool = "find" -> FindFails(e) [] e.tool = "plot" -> PlotFails(e) [] OTHER -> CompFails(e)
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
