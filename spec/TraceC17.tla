------------------------------- MODULE TraceC17 -------------------------------
EXTENDS Logging, TraceKit
VARIABLES l, st
Fails(s, e) ==
    CASE e.act = "log" -> IF s.state = "start" THEN {}
                          ELSE Clause(IF s.state = "off" THEN "silent-when-off" ELSE IF Copies(s, Level[e.level]) = 1 THEN "shown-exactly-once" ELSE "below-the-level",
                                      e.count = Copies(s, Level[e.level]))
                               \cup (IF e.count = 1 THEN Clause("record-is-recognisable", e.named) ELSE {})
      [] e.act = "get" -> Clause("logger-of-that-name", e.ok) \cup Clause("no-handlers-added-repeatedly", e.handlers <= 1) \cup Clause("no-console-output-added", e.quiet)
      [] e.act \in {"on", "off"} -> Clause("switch", e.ok) \cup Clause("no-console-output-added", e.quiet)
      [] OTHER -> {}
Upd(s, e) == CASE e.act = "start" -> Start
               [] e.act = "off" -> Off
               [] e.act = "on" -> On(Level[e.level])
               [] OTHER -> s
TInit == l = 1 /\ st = Start
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
