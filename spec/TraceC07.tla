------------------------------ MODULE TraceC07 ------------------------------
EXTENDS InstrumentNames, TraceKit
VARIABLES l, st
Fails(s, e) ==
    CASE e.act = "resolve" ->
           LET r == Resolve(e.p, e.i) IN
           Clause("resolved-name", e.ok /\ e.got = r)
           \cup Clause("resolving-again", e.ok => e.again = e.got)
      [] e.act = "same" ->
           Clause("one-instrument-two-names", e.ok /\ (MustBeSame(e.a, e.b) => e.got) /\ (MustDiffer(e.a, e.b) => ~e.got))
      [] e.act = "open" ->
           Clause("opens-the-file-of-the-resolved-instrument",
                  e.ok /\ e.file = FileName(e.p, e.i) /\ e.description = FileName(e.p, e.i))
           \cup Clause("object-knows-its-instrument", e.ok => e.instrument = Resolve(e.p, e.i) /\ e.platform = e.p)
      [] e.act = "sensor" ->
           LET r == Sensor(e.p, e.i) IN
           IF r = "refused"
           THEN Clause("ambiguous-sensor-refused",
                       Norm(e.i) \in Carried(e.p) \/ "ValueError" \in ToSet(e.errs))
           ELSE Clause("sensor-accepted", e.ok /\ e.got = r)
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
