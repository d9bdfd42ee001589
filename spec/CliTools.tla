------------------------------- MODULE CliTools -------------------------------
(***************************************************************************)
(* The command-line tools that show responses: what is printed or plotted   *)
(* for a request, given the responses in the data directory.                *)
(*   store    sequence of [p, s, bands], a band being [name, cw, dets],      *)
(*            a detector [name, x, y]                                        *)
(***************************************************************************)
EXTENDS Curves, SequencesExt
Opened(store, p, s) == SelectSeq(store, LAMBDA z : z.p = p /\ z.s = s)
BandOf(sat, b) == CHOOSE z \in ToSet(sat.bands) : z.name = b
DetOf(band, d) == CHOOSE z \in ToSet(band.dets) : z.name = d

(* Responses above the threshold, each at its wavelength *)
Shown(d, min) == LET idx == SelectSeq([i \in 1..Len(d.x) |-> i], LAMBDA i : Gt(d.y[i], min))
                 IN [j \in 1..Len(idx) |-> <<d.x[idx[j]], d.y[idx[j]]>>]

(* plot_rsr: every detector of one band *)
ByWave(sat, w, eps) == SelectSeq(sat.bands, LAMBDA b : Lt(AbsD(Sub(b.cw, w)), eps))
PlotOne(sat, b, min) == [i \in 1..Len(b.dets) |-> Shown(b.dets[i], min)]

(* find_wavelengths_for_satpy: lower end, central wavelength and upper end of the response above the threshold *)
RangeOf(d, t) == LET above == Above(d.y, t) IN
    <<d.x[CHOOSE i \in above : \A j \in above : i <= j],
      Centroid(d.x, d.y, [i \in 1..Len(d.x) |-> "1"]),
      d.x[CHOOSE i \in above : \A j \in above : i >= j]>>

(* composite_rsr_plot: for each platform the first requested sensor that it carries and that has data *)
Chosen(store, p, sensors) ==
    LET good == SelectSeq(sensors, LAMBDA s : Len(Opened(store, p, s)) > 0)
    IN IF good = <<>> THEN <<>> ELSE <<Opened(store, p, good[1])[1]>>
Sats(store, a) == FlattenSeq([i \in 1..Len(a.platforms) |-> Chosen(store, a.platforms[i], a.sensors)])
Excluded(a, b) == b.name \in ToSet(a.exclude)
(* bands that must and that may be shown *)
Must(sat, a) == CASE a.mode = "band" -> SelectSeq(sat.bands, LAMBDA b : b.name = a.band)
                  [] a.mode = "wavelength" -> SelectSeq(ByWave(sat, a.wavelength, "0.25"), LAMBDA b : ~Excluded(a, b))
                  [] a.mode = "range" -> SelectSeq(sat.bands, LAMBDA b : ~Excluded(a, b) /\ Ge(b.cw, a.lo) /\ Le(b.cw, a.hi))
May(sat, a) == IF a.mode # "range" THEN Must(sat, a)
               ELSE SelectSeq(sat.bands, LAMBDA b : ~Excluded(a, b) /\ Gt(b.cw, Sub(a.lo, a.res)) /\ Lt(b.cw, Add(a.hi, a.res)))
Label(sat, b, a) == IF a.nolegend THEN b.name ELSE sat.p \o " - " \o b.name
Line(sat, b, a) == [label |-> Label(sat, b, a), pts |-> Shown(DetOf(b, "det-1"), a.min)]
Lines(sats, a, Which(_, _)) == FlattenSeq([i \in 1..Len(sats) |-> [j \in 1..Len(Which(sats[i], a)) |-> Line(sats[i], Which(sats[i], a)[j], a)]])
=============================================================================
