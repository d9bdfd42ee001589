------------------------------ MODULE TraceC05 ------------------------------
(* Files written by the harness or by the converter, read back by the code, *)
(* against RsrFile.                                                          *)
EXTENDS RsrFile, Dec, TraceKit
VARIABLES l, st

Wt(e) == IF e.dt = "f4" THEN "2E-7" ELSE "1E-13"
Scaled(w, sc) == Mul(Mul(w, sc), "1000000")

DetOk(got, exp, e) ==
    /\ got.resp = exp.resp
    /\ Len(got.wl) = Len(exp.wl)
    /\ \A i \in 1..Len(exp.wl) : Near(got.wl[i], Scaled(exp.wl[i], exp.scale), Wt(e), "0")
    /\ got.cw = exp.cw
ReadOk(e) ==
    LET exp == Read(e.file) IN
    /\ Len(e.got) = Len(exp)
    /\ \A b \in 1..Len(exp) :
         /\ e.got[b].name = exp[b].name
         /\ Len(e.got[b].dets) = Len(exp[b].dets)
         /\ \A d \in 1..Len(exp[b].dets) : e.got[b].detnames[d] = "det-" \o ToString(d) /\ DetOk(e.got[b].dets[d], exp[b].dets[d], e)

(* round trip through the converter, up to single precision *)
ConvOk(e) ==
    /\ Len(e.got) = Len(e.raw)
    /\ \A b \in 1..Len(e.raw) : LET r == e.raw[b] g == e.got[b] IN
         /\ g.name = r.name
         /\ Len(g.dets) = Len(r.resps)
         /\ \A d \in 1..Len(r.resps) :
              /\ NearSeq(g.dets[d].resp, r.resps[d], "1E-7", "1E-40")
              /\ NearSeq(g.dets[d].wl, r.wl, "2E-7", "0")
              /\ Near(g.dets[d].cw,
                      Div(Trapz([i \in 1..Len(r.cwl) |-> Mul(r.cresps[d][i], r.cwl[i])], r.cwl), Trapz(r.cresps[d], r.cwl)), "1E-9", "0")

Fails(s, e) ==
    CASE e.op = "read" ->
           Clause("readable", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
                 Clause("stored-responses-and-wavelengths", ReadOk(e))
                 \cup Clause("platform", e.platform = IF e.by = "name" THEN e.asked_platform ELSE PlatformOf(e.file))
                 \cup Clause("instrument", e.by = "name" \/ e.instrument = InstrumentOf(e.file))
                 \cup Clause("description", e.description = e.file.description)
                 \cup Clause("band-list", e.band_names = [i \in 1..Len(e.file.bands) |-> e.file.bands[i].name])
                 \cup Clause("units", e.unit = "1e-6 m" /\ Near(e.si_scale, "1E-6", "1E-14", "0"))
                 \cup Clause("alias-lookup-works", e.alias_ok))
      [] e.op = "conv" ->
           Clause("converted-and-found", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
                 Clause("conversion-round-trip", ConvOk(e))
                 \cup Clause("platform", e.platform = e.asked_platform)
                 \cup Clause("band-list", e.band_names = [i \in 1..Len(e.raw) |-> e.raw[i].name]))
      [] e.op = "args" ->
           IF ~ArgsOk(e) THEN Clause("wrong-arguments-refused", "ValueError" \in Range(e.errs))
           ELSE IF e.missing THEN Clause("missing-file-named", "FileNotFoundError" \in Range(e.errs) /\ e.path_in_message)
           ELSE Clause("right-arguments-accepted", e.ok)

TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
