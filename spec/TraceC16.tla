------------------------------- MODULE TraceC16 -------------------------------
EXTENDS TestHelpers, TraceKit
VARIABLES l, st
Frame(e) == [kind |-> e.kind, id |-> e.id, dl |-> e.dl, ver |-> e.ver]
Top(s) == s[Len(s)]
Pop(s, n) == SubSeq(s, 1, Len(s) - n)
(* a configuration can be read here *)
Readable(z) == ConfigFrame(z.stack) > 0 \/ ~z.broken
Fails(z, e) == LET s == z.stack IN
    CASE e.act = "enter" -> (IF e.bad THEN Clause("bad-arguments-are-an-error", ~e.ok) \cup (IF e.ok THEN {} ELSE Clause("restored-when-entering-fails", e.env_back /\ e.code_back /\ e.temp_back))
                             ELSE Clause("entered", e.ok))
      [] e.act = "left" -> Clause("environment-restored", e.env_back) \cup Clause("functions-restored", e.code_back)
                           \cup Clause("own-temporary-files-removed", e.temp_back) \cup Clause("given-directories-kept", e.kept)
                           \cup Clause("exception-passed-on", e.passed)
      [] e.act = "probe" ->
           Clause("no-network-inside-the-helpers", e.net > 0 => IF e.what = "net" THEN ~Forbidden(s) ELSE NetAllowed(s, z.outer))
           \cup (CASE e.what = "conf" /\ ConfigFrame(s) > 0 ->
                       LET f == s[ConfigFrame(s)] IN
                       Clause("configuration-of-the-innermost-helper", e.ok /\ e.id = f.id /\ e.download = f.dl)
                  [] e.what = "conf" -> Clause("configuration-outside", IF z.broken THEN ~e.ok ELSE e.ok /\ e.id = e.outside)
                  [] e.what = "rsr" ->
                       (IF Served(s, z.outer) /\ Readable(z) THEN Clause("responses-of-the-innermost-helper", e.ok /\ e.id = s[RsrFrame(s)].id) ELSE {})
                       \cup (IF Forbidden(s) /\ e.tried THEN Clause("forbidden-download-is-an-error", ~e.ok /\ e.err = "RuntimeError") ELSE {})
                       \cup (IF RsrFrame(s) = 0 THEN Clause("no-fake-data-outside", ~e.ok) ELSE {})
                  [] e.what = "luts" -> (IF ConfigFrame(s) > 0 /\ s[ConfigFrame(s)].kind \in GivesLuts
                                         THEN Clause("tables-of-the-innermost-helper", e.ok /\ e.id = (IF s[ConfigFrame(s)].kind = "all" THEN 0 ELSE s[ConfigFrame(s)].id)) ELSE {})
                  [] e.what = "tb" -> (IF ConfigFrame(s) > 0 /\ s[ConfigFrame(s)].kind \in GivesTb /\ RsrFrame(s) = ConfigFrame(s)
                                       THEN Clause("radiance-table-in-the-helper's-directory", e.ok /\ e.inside) ELSE {})
                  [] e.what = "net" -> (IF Forbidden(s) /\ Readable(z) THEN Clause("forbidden-download-is-an-error", ~e.ok /\ e.err = "RuntimeError") ELSE {})
                  [] OTHER -> {})
      [] OTHER -> {}
Upd(z, e) == CASE e.act = "start" -> [stack |-> <<>>, outer |-> e.dl, broken |-> e.broken]
               [] e.act = "enter" /\ e.ok -> [z EXCEPT !.stack = Append(z.stack, Frame(e))]
               [] e.act = "left" -> [z EXCEPT !.stack = Pop(z.stack, 1)]
               [] OTHER -> z
TInit == l = 1 /\ st = [stack |-> <<>>, outer |-> FALSE, broken |-> FALSE]
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
